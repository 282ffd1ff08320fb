From 2adae5b5d6b8262406b213502e13311af8ccbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/16] fix: tolerate rounding of epsilon*nb_scenarios when
 counting tolerated violations

floor(epsilon*N) loses one tolerated scenario when the product is rounded
just below an integer (0.58*50 = 28.999999999999996, 0.29*100, ...): a
feasible solution is called infeasible, the initial partition has one
subset too few and a non-optimal solution is reported as optimal (or the
refiner asserts).
---
 src/instance/ChanceKnapInstance.py | 4 +++-
 src/refiner/Refiner.py             | 4 +++-
 src/solver/AdaptivePartitioner.py  | 7 +++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..5c56289 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,9 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        # Tolerance: the product can be rounded just below an integer
+        TOL = 1e-7
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + TOL
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..442f8e7 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,9 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        # Tolerance: the product can be rounded just below an integer
+        TOL = 1e-7
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + TOL))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..a529f2e 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,11 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        # Tolerance: the product can be rounded just below an integer
+        TOL = 1e-7
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + TOL) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From d5e5361f76808314d426f2ce31451d8e9b5f20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 02/16] fix: do not divide by zero when the lower bound is zero

An instance whose optimal value is 0 (or whose first incumbent is x = 0)
crashed with ZeroDivisionError in the gap computation.
---
 src/solver/Solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..320c92b 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,9 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif abs(self.vLB) <= 1e-8:
+            # Relative gap is undefined around zero
+            gap = 0.0 if self.vUB - self.vLB <= 1e-8 else np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From 49fee8565f94bb905e852bd99674d87f655a72b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 03/16] fix: main.py passes an argument that solve() does not
 accept

Methods 3 and 4 always ended with TypeError: unexpected keyword argument
use_balancing.
---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From d49f967e6d93db343ef804dd9b9e69fbaf239ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 04/16] fix: result row of the adaptive method raises KeyError

The codes of the split and initial partition methods were missing, so
write_all_computation_details() failed for every adaptive run.
---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From 18feb81bf726f2163605c5c522828d210eed6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 05/16] fix: record which big M method was used in the MILP
 result row

The method names compared against are not the ones solve() accepts, so
the row always held code 0 for 'belotti' and 'song'.
---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..540fe2a 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From 6277d561d954f77837852eeefb7c1461c1e10c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 06/16] fix: MILP result row can be written when no big M is
 used

big_m_time was only defined on the big M path, so the row could not be
written after solve(use_big_m=False).
---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 540fe2a..42298e8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
-- 
2.43.0


From 62346ac2e4d873234358e3494f5f4f2d3c67fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 07/16] fix: IndexError in the quantile big M when all but one
 scenario may fail

With floor(epsilon*N)+1 == N (e.g. N=5, epsilon=0.8) the quantile index is
one past the end.
---
 src/BigMFinder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..f978efa 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,6 +96,8 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios)+1)
+        # All but one scenario can be violated: take the largest violation
+        q = min(q, len(violations)-1)
         return violations[q]
 
     #   - - - Public methods - - -
-- 
2.43.0


From c0ab40d415a3b2e69c1f3862e132be5d8493c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 08/16] fix: forget subsets deleted by an earlier merge when
 not merging

The list kept its value from an earlier iteration, so the next warm start
skipped subsets that still exist and put the hints of the remaining ones
at the wrong positions.
---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index a529f2e..69a3dfe 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -228,6 +228,7 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From dbe24e61a8ab7783da6cb031ab6e0146595c24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/16] fix: results can be written when interrupted before the
 first iteration

main.py writes the result row after a timeout; when the alarm fired while
the initial subset costs were computed, iteration was not yet defined
(AttributeError).
---
 src/solver/AdaptivePartitioner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 69a3dfe..3e9d4b6 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,9 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.xLB = None
+        self.iteration = 0
+        self.use_big_M = False
         self.did_merge = False
         self.MERGE_TOL = 1.00
         self.split_method = split_method
-- 
2.43.0


From b39ba1730d5fac9473f147e18f153d3e9fcaff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 10/16] fix: export looks for the file name that main.py writes

main.py rounds 100*epsilon while the export truncates it: for
epsilon=0.29 (100*0.29 = 28.999999999999996) the result file was not found.
---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From f015a5594a8361b1bc4c0120f4b8702bd6876adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 11/16] fix: handle a time limit that expires before the model
 is solved

When computing big M's or building the model used up the time limit, a
negative TimeLimit was passed to Gurobi (GurobiError); when the solver
stopped without a solution, reading it failed. Both lost the results of the
run: now the bounds found so far are kept.
---
 src/UpperBounder.py               | 3 +++
 src/solver/AdaptivePartitioner.py | 2 +-
 src/solver/Solver.py              | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..9f35c9c 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -123,5 +123,8 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
+        if x is None:
+            # Time limit reached before finding a solution
+            return x, z, v_obj, v_bnd
         self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 3e9d4b6..18de204 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -143,7 +143,7 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
-        if self._available_time() <= 0:
+        if xUB is None or self._available_time() <= 0:
             return self.xUB, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 320c92b..2747ea2 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -111,13 +111,16 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if cclp_model.grb_model.SolCount == 0:
+            # Time limit reached before finding a solution
+            return None, None, -np.inf, cclp_model.get_obj_bnd()
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-- 
2.43.0


From 8a9d157d68e56769e60b01b458539fd2f670b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 12/16] fix: merging could cycle over the same partitions
 forever

Merge again only once the upper bound has improved since the last merge.
---
 src/solver/AdaptivePartitioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 18de204..1b573ed 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -35,6 +35,7 @@ class AdaptivePartitioner(Solver):
         self.iteration = 0
         self.use_big_M = False
         self.did_merge = False
+        self.last_merge_vUB = np.inf
         self.MERGE_TOL = 1.00
         self.split_method = split_method
         self.projection_method = projection_method
@@ -232,8 +233,12 @@ class AdaptivePartitioner(Solver):
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
         self.merger.deleted_subsets = []
-        if use_merger:
+        # Merging again before the upper bound has improved could undo
+        # previous refinements, and cycle over the same partitions
+        TOL = 1e-8
+        if use_merger and (self.vUB < self.last_merge_vUB - TOL):
             if max(new_subset_costs) <= self.vUB:
+                self.last_merge_vUB = self.vUB
                 feasible_subsets = self.refiner.feasible_subsets
                 nb_feasible = len(feasible_subsets)
                 if nb_feasible == self.refiner.mu:
-- 
2.43.0


From 02682712b0d2cbe20e84c91881f5542433f536ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 13/16] fix: cancel the alarm before results are written

---
 main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.py b/main.py
index 25f3089..6a83a04 100644
--- a/main.py
+++ b/main.py
@@ -92,6 +92,8 @@ elif METHOD == 3:
     try:
         method.solve(partitionBigMFinder, use_merger=False,
                      use_big_M=True, big_m_method="belotti")
+        # The alarm must not strike while the results are written
+        signal.alarm(0)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,6 +109,8 @@ elif METHOD == 4:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
                      use_lazy=True)
+        # The alarm must not strike while the results are written
+        signal.alarm(0)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From c207a0dde04d49e94c60464804fd5d626f5b714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:17 +0000
Subject: [PATCH 14/16] fix: merge partners were sorted by the costs of other
 blocks

---
 src/Merger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Merger.py b/src/Merger.py
index 876f2a6..7751dda 100644
--- a/src/Merger.py
+++ b/src/Merger.py
@@ -84,7 +84,8 @@ class Merger():
         print('Candidate infeasible subsets:', candidate_infeasible)
         # Sort candidate subsets in decreasing order of cost
         top_candidate_infeasible = self.sort_subset_costs(
-            candidate_infeasible, subset_costs)
+            candidate_infeasible,
+            [subset_costs[c] for c in candidate_infeasible])
         print('Sorted in decreasing order of subset cost:',
               top_candidate_infeasible)
         return top_candidate_infeasible
-- 
2.43.0


From c59c5d974307ce677f3505d87b94156272c3d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:47 +0000
Subject: [PATCH 15/16] fix: a feasible last solution could be lost when its
 bound did not improve

---
 src/solver/AdaptivePartitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 1b573ed..918ed51 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -155,6 +155,8 @@ class AdaptivePartitioner(Solver):
             if (v_obj <= self.vUB + 1e-8):
                 self.xUB = xUB
             self.vUB = v_bnd
+        if is_feasible:
+            self.xUB = xUB
         self.lowerbounder.save_feasible_scenarios(
             self.chance_instance.get_feasible_scenarios())
         # Save the iteration info
-- 
2.43.0


From fee16a2337b22c76f5a042a6a11e697189b388fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:47 +0000
Subject: [PATCH 16/16] fix: block costs solved to a gap were used as exact
 values in pruning

---
 src/optim/DeterModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optim/DeterModel.py b/src/optim/DeterModel.py
index e8fd85c..629e514 100644
--- a/src/optim/DeterModel.py
+++ b/src/optim/DeterModel.py
@@ -6,6 +6,8 @@ class DeterModel(OptiModel):
 
     def __init__(self, chance_instance):
         super().__init__(chance_instance, "DeterModel")
+        # The costs of scenarios and subsets are used as exact values
+        self.grb_model.Params.MIPGap = 1e-8
 
     #   - - - Private methods - - -
     def _add_constraints(self, scenario):
-- 
2.43.0

