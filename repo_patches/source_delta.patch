From 59827d64f8ed833b0b85aecdd4bc342b445c49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 01/12] fix: divide by the molecule sizes in the Hessian of the
 ideal gas entropy

The second derivative of phi*ln(phi)/l is 1/(l*phi), but l/phi was returned.
---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From 77552638bd65b02a85d875984c3d7d5055b48640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 02/12] fix: use the absolute conjugate field error for the
 convergence check

Negative deviations were ignored, so the reported and checked "max absolute" field
error could be smaller than the actual one.
---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From ee6058ce8688c05bc5d8a02be079c741bc012a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 03/12] fix: give compiled ensembles their own contiguous float
 data

A scalar phi_means was broadcast to a zero-stride array that the compiled class read
out of bounds, integer values were not accepted, and later in-place changes of the
scaled activity leaked into existing compiled instances.
---
 flory/ensemble/canonical.py      | 2 +-
 flory/ensemble/grandcanonical.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..44fed1d 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,4 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(self._phi_means.astype(np.float64))
diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..c31bc03 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,6 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(
+            self._scaled_activity.astype(np.float64)
+        )
-- 
2.43.0


From 076e6146b8c1b77bf4a98ca5b4818ecd0a57ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 04/12] fix: give compiled linear constraints their own
 C-contiguous data

Fortran-ordered coefficient matrices could not be compiled, and later in-place changes
of Cs or Ts leaked into existing compiled instances.
---
 flory/constraint/linear_global.py | 5 ++++-
 flory/constraint/linear_local.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..d4cb02a 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..2da5452 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
-- 
2.43.0


From 1e6c58006be4688052f04f4362bc2f9994f2df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 05/12] fix: create the logger of the block interaction before
 it is used

An asymmetric chis_feat raised AttributeError instead of being symmetrized.
---
 flory/interaction/flory_huggins_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..0223d56 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -52,6 +52,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 The number of components in each feature. An integer indicates that this
                 value is the same for all features.
         """
+        self._logger = logging.getLogger(self.__class__.__name__)
         self.num_feat = num_feat
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
-- 
2.43.0


From ad6c6e49d0fa2afe0d7fc9fc578f413459077bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 06/12] fix: make chis_feat of the block interaction settable

The setter used the undefined attribute _num_feat and always raised AttributeError.
---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 0223d56..af408e0 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -93,7 +93,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From 04a7f2e282f9c41f32ed175bb370fa8c9c99a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 07/12] fix: give the compiled block interaction its own data

In-place changes of chis_feat leaked into existing compiled instances.
---
 flory/interaction/flory_huggins_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index af408e0..4295e7c 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -125,5 +125,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            self._chis_feat.astype(np.float64),
+            -self._chis_feat.min() + additional_chis_shift,
         )
-- 
2.43.0


From 0c9336967a318b7e0700ea54e2b952cb280b7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 08/12] fix: keep the interaction matrix floating point for
 integer uniform chi

set_random_chis after set_uniform_chis with an integer truncated all random values.
---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..30ad4ca 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, dtype=float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From 60f2c0633cee453d98d94d9cf9eefe29c98aeadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 09/12] fix: accept integer fields when reinitializing the
 finder

Integer omegas or phis raised typing errors in the compiled code.
---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..5f026cb 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float)
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From d7d8ae410626b9b8fc0a0c3506d019ec2f576db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 10/12] fix: keep the finder unchanged when a new instance is
 rejected

The set_* methods stored the new instance before checking its size, so after the
exception the finder was left with an incompatible instance, and a following run
accessed memory out of bounds.
---
 flory/mcmp/finder.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 5f026cb..fd60264 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,11 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
+        new_interaction = interaction.compiled(
             **{**self._kwargs_for_instances, **kwargs}
         )
-        self.check_instance(self._interaction)
+        self.check_instance(new_interaction)
+        self._interaction = new_interaction
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +349,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        new_entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(new_entropy)
+        self._entropy = new_entropy
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +372,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        new_ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(new_ensemble)
+        self._ensemble = new_ensemble
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +403,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        new_constraints: list[ConstraintBaseCompiled] = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                new_constraints.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,17 +417,18 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    new_constraints.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            new_constraints.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in new_constraints:
             self.check_instance(cons)
 
+        self._constraints = new_constraints
         self.reinitialize_constraint()
 
         if if_reset_revive:
-- 
2.43.0


From 742fc6c21c4dc3ba1773c69defd84103929c4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:49 +0000
Subject: [PATCH 11/12] fix: do not run out of living compartments when copying
 to dead ones

When no living compartment was larger than twice the threshold, the list of candidates
was exhausted and memory was accessed out of bounds (crash or endless loop).
---
 flory/mcmp/_finder_impl.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..7db9de8 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -185,8 +185,20 @@ def revive_compartments_by_copy(
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
 
+    is_living = Js > threshold
     for itr_dead in dead_indexes[:dead_count]:
         while True:
+            if living_nicely_count == 0:
+                # no compartment can be split nicely, split the largest living one instead
+                ref_index = np.where(is_living, Js, -np.inf).argmax()
+                if is_living[ref_index]:
+                    targets[:, itr_dead] = targets[:, ref_index]
+                    new_J = 0.5 * Js[ref_index]
+                    Js[itr_dead] = new_J
+                    Js[ref_index] = new_J
+                    is_living[itr_dead] = True
+                    revive_count += 1
+                break
             pos_in_living = rng.integers(0, living_nicely_count)
             ref_index = living_nicely_indexes[pos_in_living]
             if Js[int(ref_index)] > 2.0 * threshold:
@@ -196,6 +208,7 @@ def revive_compartments_by_copy(
                 Js[ref_index] = new_J
                 living_nicely_indexes[living_nicely_count] = itr_dead
                 living_nicely_count += 1
+                is_living[itr_dead] = True
                 revive_count += 1
                 break
             living_nicely_count -= 1
-- 
2.43.0


From d2ee2186ab6c39be23416ff6d4d3feaf997ba3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:49 +0000
Subject: [PATCH 12/12] fix: sort the clustered phases as documented

get_clusters promised sorted phases but returned them in the order of the cluster labels.
---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..8e5d38a 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,7 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(cluster_volumes, cluster_fractions).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0

