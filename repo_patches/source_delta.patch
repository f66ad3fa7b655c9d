From 14b1d047b4a07a48b3d0e91901633d821dffd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 01/20] fix: main.py passes an argument that
 AdaptivePartitioner.solve does not have

---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From 36486223a75c474e612e85baee7ee34b2da021e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 02/20] fix: Informer cannot encode the split and initial
 partition methods

---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From 2f3f339dcd82071bfa877ab01266ec173fb317ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 03/20] fix: MilpSolver records belotti and song big M methods
 as unknown

---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..540fe2a 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From 2b44f3cfd5c095529088ce243e6c0b07c89087c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 04/20] fix: MilpSolver results cannot be written when big M is
 not used

---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 540fe2a..42298e8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
-- 
2.43.0


From 0c64651f6752c8632dbe77d1bcecc74cdebd8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 05/20] fix: Song big M quantile runs past the last violation
 for large epsilon

---
 src/BigMFinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..4d7d596 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,7 +96,7 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios)+1)
-        return violations[q]
+        return violations[min(q, len(violations) - 1)]
 
     #   - - - Public methods - - -
     def run_belotti_et_al_big_M(self, vUB,
-- 
2.43.0


From 0950c6f865deaf835bfcc5620ff9f1760d67b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 06/20] fix: optimality gap divides by zero when the lower
 bound is zero

---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..6ba5eb8 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -32,7 +32,7 @@ class Solver():
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
         else:
-            gap = (self.vUB - self.vLB)/self.vLB
+            gap = (self.vUB - self.vLB)/max(abs(self.vLB), 1e-10)
         return gap
 
     def _available_time(self):
-- 
2.43.0


From be7a024870c5c6df6bf32b925564f9fe5f030a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/20] fix: warm start skips subsets deleted by the merge of
 an earlier iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..e855907 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -225,6 +225,7 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From 7079a73cb33c69a9ed98bc9acaa7f2430b6607ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 08/20] fix: floating-point noise in epsilon*N loses one
 tolerated scenario

---
 src/instance/ChanceKnapInstance.py | 4 +++-
 src/refiner/Refiner.py             | 2 +-
 src/solver/AdaptivePartitioner.py  | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..5d6590a 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,9 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        TOLERANCE = 1e-6
+        sol_is_feasible = (
+            nb_infeasible_scenarios <= nb_scen_tolerance + TOLERANCE)
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..6a5a11a 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,7 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + 1e-6))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index e855907..535f0f5 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,10 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        TOL = 1e-6
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + TOL) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 747ad823ba71abac9336b3ff235c4f211cf9553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 09/20] fix: merging cycles for ever when the upper bound does
 not decrease

---
 src/solver/AdaptivePartitioner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 535f0f5..d638516 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -32,6 +32,7 @@ class AdaptivePartitioner(Solver):
         self.xUB = None
         self.zUB = None
         self.did_merge = False
+        self.last_merge_vUB = np.inf
         self.MERGE_TOL = 1.00
         self.split_method = split_method
         self.projection_method = projection_method
@@ -228,8 +229,10 @@ class AdaptivePartitioner(Solver):
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
         self.merger.deleted_subsets = []
-        if use_merger:
+        # Merging again before vUB decreased can cycle for ever
+        if use_merger and self.vUB < self.last_merge_vUB - 1e-8:
             if max(new_subset_costs) <= self.vUB:
+                self.last_merge_vUB = self.vUB
                 feasible_subsets = self.refiner.feasible_subsets
                 nb_feasible = len(feasible_subsets)
                 if nb_feasible == self.refiner.mu:
-- 
2.43.0


From ba00adfbaa0761f4c889f967da6457cd54c70e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 10/20] fix: close successive relaxed solutions are taken for
 identical ones

---
 src/UpperBounder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..f67dbf2 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -24,7 +24,7 @@ class UpperBounder():
                or (adaptivePartitioner.did_merge
                    and adaptivePartitioner.MERGE_TOL > 1.00)):
                 try:
-                    assert not np.allclose(x, adaptivePartitioner.xUB)
+                    assert not np.array_equal(x, adaptivePartitioner.xUB)
                 except AssertionError:
                     print('Error: found same solution in two successive'
                           ' iterations of the upper bound problem.')
-- 
2.43.0


From d5c6148056de4ac4b8bf240f2df4a41f0067005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 11/20] fix: the feasible relaxed solution that ends the search
 is not always reported

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index d638516..8b3686c 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -336,6 +336,7 @@ class AdaptivePartitioner(Solver):
         if is_feasible or (real_gap <= self.gap):
             if is_feasible:
                 self.vLB = self.vUB
+                self.xUB = xUB
                 self.xLB = self.xUB
             print('\n - End - ')
             print('Found optimal solution of CCLP: ', self.xUB)
-- 
2.43.0


From 464f1bd768ea7de763813b257add309eb8b8cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 12/20] fix: upper bound sanity check is tighter than the
 tolerances of the solver

---
 src/UpperBounder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index f67dbf2..2f583e3 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -32,7 +32,8 @@ class UpperBounder():
                     raise
             try:
                 assert v_obj <= (adaptivePartitioner.MERGE_TOL
-                                 * adaptivePartitioner.vUB + 1e-8)
+                                 * adaptivePartitioner.vUB
+                                 + 1e-5 * max(1, abs(v_obj)))
             except AssertionError:
                 print('Error: vUB increased in this iteration!')
                 print('From ', adaptivePartitioner.vUB, ' to ', v_obj)
-- 
2.43.0


From c621e2ccae9c5208b7d988dc2a9530833d85e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 13/20] fix: negative Gurobi time limit when time runs out
 while building the model

---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 6ba5eb8..7e6347b 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -108,7 +108,7 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
-- 
2.43.0


From 032d2ca79e4bb305e61cee7ca576a0029e63646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 14/20] fix: running out of time without a solution crashes and
 loses the results

---
 main.py                  | 14 ++++++++++----
 src/optim/OptiModel.py   |  9 ++++++---
 src/solver/MilpSolver.py |  2 +-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/main.py b/main.py
index 25f3089..2ee76f3 100644
--- a/main.py
+++ b/main.py
@@ -75,12 +75,18 @@ except AttributeError:
 
 if METHOD == 1:
     method = MilpSolver(chance_instance, time_limit=TIME_LIMIT, gap=GAP)
-    method.solve(use_big_m=True, big_m_method="song",
-                 save_bounds=True, path=iteration_output_file_name)
+    try:
+        method.solve(use_big_m=True, big_m_method="song",
+                     save_bounds=True, path=iteration_output_file_name)
+    except KeyboardInterrupt:
+        print("Reached time limit before finding a solution.")
 elif METHOD == 2:
     method = MilpSolver(chance_instance, time_limit=TIME_LIMIT, gap=GAP)
-    method.solve(use_big_m=True, big_m_method="belotti",
-                 save_bounds=True, path=iteration_output_file_name)
+    try:
+        method.solve(use_big_m=True, big_m_method="belotti",
+                     save_bounds=True, path=iteration_output_file_name)
+    except KeyboardInterrupt:
+        print("Reached time limit before finding a solution.")
 elif METHOD == 3:
     signal.alarm(TIME_LIMIT)
     method = AdaptivePartitioner(
diff --git a/src/optim/OptiModel.py b/src/optim/OptiModel.py
index 6e13918..c3af8d8 100644
--- a/src/optim/OptiModel.py
+++ b/src/optim/OptiModel.py
@@ -195,9 +195,12 @@ class OptiModel():
         else:
             self.grb_model.optimize()
 
-        # If the solve is interrupted, save bounds and
-        # propagate interruption.
-        if self.grb_model.getAttr(GRB.Attr.Status) == 11:
+        # If the solve is interrupted, or if it runs out of time before
+        # finding any solution, save bounds and propagate interruption.
+        status = self.grb_model.getAttr(GRB.Attr.Status)
+        if status == GRB.INTERRUPTED or (
+                status == GRB.TIME_LIMIT
+                and self.grb_model.getAttr(GRB.Attr.SolCount) == 0):
             if save_bounds:
                 self._save_bounds_to_file(path)
             raise KeyboardInterrupt
diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 42298e8..f4d02b8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -49,6 +49,7 @@ class MilpSolver(Solver):
     def solve(self, use_big_m=True, big_m_method="naive",
               save_bounds=False, path=None):
         """Solves extended CCLP model with given params."""
+        self._save_computation_parameters(use_big_m, big_m_method)
         # Compute big M's according to big_m_method
         if use_big_m:
             self._compute_big_m(big_m_method=big_m_method)
@@ -60,7 +61,6 @@ class MilpSolver(Solver):
             gap=self.gap,
             use_big_M=use_big_m, save_bounds=save_bounds,
             path=path, verbose=True)
-        self._save_computation_parameters(use_big_m, big_m_method)
         self.xLB = x
         self.zLB = z
         self.vLB = v_obj
-- 
2.43.0


From f39e5dc53e2cacfa48c7e6bf24ebb34d4a4827a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 15/20] fix: results cannot be written if the run is
 interrupted before its first iteration

---
 src/solver/AdaptivePartitioner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 8b3686c..2067ba6 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,9 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.xLB = None
+        self.iteration = 0
+        self.use_big_M = False
         self.did_merge = False
         self.last_merge_vUB = np.inf
         self.MERGE_TOL = 1.00
-- 
2.43.0


From 3bfdbce84f6bd39a1abb85a3d90545cab85c8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 16/20] fix: results of some epsilons are looked up under
 another file name than main.py writes

---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 7f0dbe9d1f0ede0b83a9b21bc55e322c969da670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 17/20] fix: MilpSolver results cannot be written if
 interrupted before it saves its parameters

---
 src/solver/MilpSolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index f4d02b8..7454cc0 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,8 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.use_big_M = 0
+        self.big_m_method = 0
         self.big_m_time = 0.0
 
     #   - - - Private methods - - -
-- 
2.43.0


From 3deeeb46e798acf25ef92dd42f50f3181a17761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 18/20] fix: recording bounds without elapsed_time loses the
 whole trace

---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 7e6347b..ca41689 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -73,7 +73,7 @@ class Solver():
                          z_start=None,
                          prune_indices=[],
                          time_limit=1800,
-                         elapsed_time=None,
+                         elapsed_time=0.0,
                          gap=1e-4,
                          use_one_thread=True,
                          use_big_M=False,
-- 
2.43.0


From 40a63787eb22590988f031c6727a3406f391ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 19/20] fix: the lower bound is set to the solver's upper
 bound, which can exceed the value of the solution

---
 src/solver/AdaptivePartitioner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 2067ba6..b406bd1 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -338,9 +338,13 @@ class AdaptivePartitioner(Solver):
 
         if is_feasible or (real_gap <= self.gap):
             if is_feasible:
-                self.vLB = self.vUB
                 self.xUB = xUB
-                self.xLB = self.xUB
+                # The bound can exceed the value of xUB by the solver's gap
+                vLB = min(self.chance_instance.get_vector_c().dot(xUB),
+                          self.vUB)
+                if vLB >= self.vLB:
+                    self.vLB = vLB
+                    self.xLB = self.xUB
             print('\n - End - ')
             print('Found optimal solution of CCLP: ', self.xUB)
             print('with objective: ', self.vUB)
-- 
2.43.0


From bbc81d29337eb578c37accffd6e328ca2755b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 20/20] fix: a method without results can be highlighted over
 methods with unbounded gaps

---
 export_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export_results.py b/export_results.py
index 5ceb3d8..f383d6b 100644
--- a/export_results.py
+++ b/export_results.py
@@ -167,7 +167,8 @@ for use_continuous in USE_CONTINUOUS_LIST:
                     else:
                         m_time[m] = np.inf
                         m_gap[m] = np.inf
-                        nb_solved[m] = 0
+                        # Rank below methods that have results
+                        nb_solved[m] = -1
                         if method in MILP_METHODS:
                             new_row = ["-"]
                         else:
-- 
2.43.0

