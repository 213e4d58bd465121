From 6c18b890e409d91002a4d8af1e2cae895ecd0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 01/41] fix: recognise RunBefore/RunAfter stage arguments

Parameterised restrictions (RunAfter[X]) are typing aliases, not types, so they
were treated as missing data inputs and every such build failed.
---
 instancespace/stage_builder.py | 32 ++++++++++++++------------------
 instancespace/stage_runner.py  | 15 ++++++++++++++-
 instancespace/stages/stage.py  |  8 +++++++-
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..c3a88f7 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type, RunBefore, RunAfter):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -145,7 +148,10 @@ class StageBuilder:
 
         return StageRunner(
             stage_order,
-            self._stage_inputs,
+            {
+                stage: self._strip_run_restriction_arguments(stage_inputs)
+                for stage, stage_inputs in self._stage_inputs.items()
+            },
             self._stage_outputs,
             initial_input_annotations,
         )
@@ -265,11 +271,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type, RunBefore, RunAfter)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +294,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..0e8d687 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,14 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import (
+    OUT,
+    RunAfter,
+    RunBefore,
+    Stage,
+    StageClass,
+    is_run_restriction,
+)
 
 StageScheduleElement = list[StageClass]
 
@@ -146,6 +153,12 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            # Ordering restrictions aren't data, so there is nothing to pass for them
+            input_type = input_arguments.__annotations__.get(input_name)
+            if is_run_restriction(input_type, RunBefore, RunAfter):
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..e79a84c 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,9 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(argument_type: Any, *restrictions: type) -> bool:  # noqa: ANN401
+    """Whether an argument type is one of the given (parameterised) restrictions."""
+    origin = get_origin(argument_type) or argument_type
+    return isinstance(origin, type) and issubclass(origin, restrictions)
-- 
2.43.0


From 03c8b5f3ee4513aa801ca55c19932b6a37841564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 02/41] fix: do not modify the caller's initial inputs while
 resolving stages

Resolution added every stage output to the set handed to build(), so a second
build with it (and the runner's own check) saw outputs as initial inputs.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index c3a88f7..b5edcb0 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -164,7 +164,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From 1bca9c67e080d931106ccb80f483bcb24f6fd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 03/41] fix: resolve stages which have no outputs

---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index b5edcb0..6a6b5bc 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -224,7 +224,7 @@ class StageBuilder:
             for stage in stages_can_run_post_mutating_check:
                 for argument in self._stage_outputs[stage]:
                     available_inputs.add(argument)
-                    resolved_stages.add(stage)
+                resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From 6858d7591f95c8a98480abc937b5bed35b0b791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 04/41] fix: save a copy of the arguments at every schedule
 step

Every saved step was the same dict, so rerunning an earlier stage saw the outputs
of later ones instead of being rolled back.
---
 instancespace/stage_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 0e8d687..5982aca 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -171,7 +171,7 @@ class StageRunner:
             self._available_arguments[output_name] = output_value
 
         self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
+            self._available_arguments.copy()
         )
 
         self._stages_ran[stage] = True
@@ -271,7 +271,7 @@ class StageRunner:
         index: int,
     ) -> None:
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
+        self._available_arguments = self._schedule_output_data[index].copy()
 
         self._schedule_output_data = self._schedule_output_data[: index + 1]
 
@@ -288,7 +288,7 @@ class StageRunner:
 
         if current_schedule_finished:
             self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
+                self._available_arguments.copy()
             )
 
             self._current_schedule_item += 1
-- 
2.43.0


From 2a143c3ea13ec6a10fd8cdb1a01941941092004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 05/41] fix: forget which stages ran when restarting from the
 first stage

Stages of the first step stayed marked as ran, so a restart moved on to the second
step before all stages of the first had been run again.
---
 instancespace/stage_runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 5982aca..0899102 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -105,6 +105,7 @@ class StageRunner:
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
         self._rollback_to_schedule_index(0)
+        self._stages_ran.clear()
 
         self._available_arguments = additional_arguments._asdict()
 
@@ -210,6 +211,7 @@ class StageRunner:
             tuple[Any]: _description_
         """
         self._rollback_to_schedule_index(0)
+        self._stages_ran.clear()
 
         self._available_arguments = additional_arguments._asdict()
 
@@ -231,6 +233,7 @@ class StageRunner:
             tuple[Any]: _description_
         """
         self._rollback_to_schedule_index(0)
+        self._stages_ran.clear()
 
         self._available_arguments = additional_arguments._asdict()
 
-- 
2.43.0


From 4031977b73e1cc75c6974be02920fc6d96fc0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 06/41] fix: run_until_stage also runs the specified stage, as
 documented

---
 instancespace/stage_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 0899102..42a767a 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -239,6 +239,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
+                self.run_stage(stop_at_stage)
                 break
 
             for stage in schedule:
-- 
2.43.0


From f3cdf091f364773cfd0c2a85bcdc5565138b06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 07/41] fix: propagate the instance labels of the selected
 subset

PrelimOutput named the field instlabels while every stage and the model read
inst_labels, so the labels were not filtered with the other data.
---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..f53a2be 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,7 +118,7 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
+    inst_labels : pd.Series | None
         Labels for each instance in the dataset, if provided.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series | None  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From a11433c48a091c19d4ccc244b5e31242137e85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 08/41] fix: treat every index of the subset file as 1-based

The last instance could not be selected, and 0 or negative entries selected
instances counted from the end.
---
 instancespace/stages/prelim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index f53a2be..16648e1 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -803,11 +803,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             subset_index = np.zeros(ninst, dtype=bool)
             aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
             print("aux:", aux)
-            aux = aux[aux < ninst]
-
-            for i in range(len(aux)):
-                aux[i] = aux[i] - 1
-            subset_index[aux] = True
+            # the indices in the file are 1-based
+            aux = aux[(aux >= 1) & (aux <= ninst)]
+            subset_index[aux - 1] = True
 
         elif bydensity:
             print(
-- 
2.43.0


From 9df8ab0648d9bb578ca714a81839eb2a63224e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 09/41] fix: do not overwrite zeros in the caller's performance
 matrix

The raw performance shares its memory, so the raw data changed too.
---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 16648e1..ba14837 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -629,7 +629,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "higher than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y / y_best[:, np.newaxis]
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
                 msg = (
@@ -653,7 +653,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "less than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y_best[:, np.newaxis] / y
                 y_bin = (1 - y_best[:, np.newaxis] / y_aux) <= prelim_opts.epsilon
                 msg = (
-- 
2.43.0


From 919f6b9fd8953e83ac0e3a19dc7801c1888c90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 10/41] fix: ignore missing values when bounding and
 normalising

One missing value turned the whole feature column into NaN.
---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index ba14837..913dec6 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -674,8 +679,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -689,11 +699,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From aa50a46110ce5c9c9b186534ba48eef54cdeb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/41] fix: select every feature whose correlation reaches the
 threshold

The threshold was applied to the signed correlations in feature order while
the features were taken in the order of their absolute correlation. The
returned coefficients were also overwritten.
---
 instancespace/stages/sifted.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..093590b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -741,13 +741,13 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         insignificant_pval = pval > self.PVAL_THRESHOLD
 
         # Filter out insignificant correlations and take absolute values of correlations
-        filtered_rho = rho
+        filtered_rho = rho.copy()
         filtered_rho[np.isnan(rho) | insignificant_pval] = 0
         filtered_rho = np.abs(filtered_rho)
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From f12d99d53ed394eb3282d57f3fb04a2a893d990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 12/41] fix: read the silhouette score of the suggested number
 of clusters

The wrong index raised IndexError when one of the largest k was the best.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 093590b..eb01360 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1000,7 +1000,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From ed0f85efa47e9f7a23cc426e1f43d7125ebf620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 13/41] fix: index the dense feature matrix by columns

Selecting instances by density raised TypeError.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index eb01360..bacfce8 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,7 +670,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From bcdd5800cac9a0427e7582282a31c343078e82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 14/41] fix: report the selected feature indices as idx

idx listed every feature, so the raw features could not be matched to the
labels of the selected features when saving.
---
 instancespace/stages/sifted.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index bacfce8..17212d0 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -539,7 +539,6 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         opts = self.opts
 
         nfeats = x.shape[1]
-        idx = np.arange(nfeats)
         rng = np.random.default_rng(seed=0)
 
         # Prepare for Filter
@@ -578,7 +577,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 list(feat_labels),
                 selvars,
-                idx,
+                selvars,
                 None,
                 None,
                 None,
@@ -615,7 +614,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +640,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +682,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +702,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 41fc4492c654abed46244e3197a87c04e8dcd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 15/41] fix: prefer the feature combination with the lowest
 error

The genetic algorithm maximises the fitness, which is documented as the
negative mean squared error.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 17212d0..9117c97 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -853,7 +853,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From d03bf90acec055d14f829fa46f4512978912dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/41] fix: evaluate the features which the feature
 combination selects

The clusters index the features left after the correlation step, but were
applied to the complete feature matrix.
---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 9117c97..f9bea15 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -918,12 +918,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = self.feat_labels[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From 3d50efe9f720cab93f47314699af591e9a36c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 17/41] fix: include every algorithm in the PILOT projection
 matrix C

The first algorithm was left out of the numerical solution.
---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From 92dd62e373a2a85b802cc5662481c0268061fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 18/41] fix: use the pre-calculated PILOT solution

The index of the solution was undefined.
---
 instancespace/stages/pilot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..e9fffcf 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -227,6 +227,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                     _do_output,
                 )
                 alpha = options.alpha
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From ed46397a3e6f59c33bb98c679e4da109157bc31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 19/41] fix: compute R2 of the numerical PILOT solution per
 feature and algorithm

The diagonal of the correlation matrix of the instances is always one.
---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index e9fffcf..b30d650 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -269,7 +269,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From 3b3543883b99f178b9c1d056538b63a390ecd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 20/41] fix: do not swap accuracy and precision in the PYTHIA
 summary

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..822b1ff 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From f225b28c13a796154b98bdacda2544627b1c59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 21/41] fix: do not overwrite the performance of the caller
 when summarising PYTHIA

---
 instancespace/stages/pythia.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 822b1ff..d6720bb 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -817,7 +817,6 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
-- 
2.43.0


From 6b125dc0a97f15f599e887a91de28b0e193864f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 22/41] fix: match the 0-based PYTHIA selections in the summary

The selector row described the algorithm before the selected one.
---
 instancespace/stages/pythia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index d6720bb..d9ccb82 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -802,8 +802,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 994264fc82318b87983cafca148944a3f96f7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 23/41] fix: return the mean and standard deviation used to
 normalise z

They were computed after the normalisation, so always 0 and 1.
---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index d9ccb82..bfd7bf7 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From 819c3a0f73f384997e793a2c52982ddfd370fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 24/41] fix: tell instances without a selected algorithm from
 the first algorithm

Selections are 0-based, so 0 could not stand for none. A single algorithm
gave selections of the wrong shape, which made the summary fail.
---
 instancespace/stages/pythia.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index bfd7bf7..f54c9ad 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -719,11 +719,12 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             # Get the index of the maximum value in each row
             selection0 = np.argmax(weighted_yhat, axis=1)
         else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+            best = y_hat[:, 0].astype(np.int_)
+            selection0 = np.zeros(y_hat.shape[0], dtype=np.int_)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        # No algorithm is selected
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
-- 
2.43.0


From 0a66ed7a3586b9520f46ba71199a5356d3009dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 25/41] fix: number the selected algorithms from 1 in the model

The outputs read them like the best algorithms, with 0 for none.
---
 instancespace/data/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/model.py b/instancespace/data/model.py
index e2c890d..62522d6 100644
--- a/instancespace/data/model.py
+++ b/instancespace/data/model.py
@@ -341,8 +341,9 @@ class PythiaOut:
             precision=stage_runner_output["precision"],
             recall=stage_runner_output["recall"],
             accuracy=stage_runner_output["accuracy"],
-            selection0=stage_runner_output["selection0"],
-            selection1=stage_runner_output["selection1"],
+            # The model numbers algorithms from 1, 0 is none
+            selection0=stage_runner_output["selection0"] + 1,
+            selection1=stage_runner_output["selection1"] + 1,
             summary=stage_runner_output["pythia_summary"],
         )
 
-- 
2.43.0


From 1ef2e4c6ee541d5f933df5a4209805a637e3e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 26/41] fix: refine a footprint on the good instances which it
 contains

A polygon was refined only if it contained every instance, and then raised
IndexError.
---
 instancespace/stages/trace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..ba5bf1e 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -685,17 +685,17 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
+            inside = np.array(
+                [splits[i].contains(point) for point in MultiPoint(self.z).geoms],
+                dtype=np.bool_,
+            )
+            criteria = np.logical_and(inside, y_bin)
             polydata = self.z[criteria]
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From 0ddc15b2feaacbcccdc3a7a173ff61bea407e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 27/41] fix: empty a contradictory footprint which cannot be
 refined

The contradiction check raised AttributeError.
---
 instancespace/stages/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index ba5bf1e..6ee8708 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -624,7 +624,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 )
                 test_polygon = test_polygon.difference(contradiction)
                 if num_tries < max_tries:
-                    test_polygon = self.tight(test_polygon, y_test)
+                    test_polygon = self.tight(test_polygon, y_test) or Polygon()
             elif purity_test > purity_base:
                 c_area = contradiction.area / base_polygon.area
                 print(
@@ -633,7 +633,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 )
                 base_polygon = base_polygon.difference(contradiction)
                 if num_tries < max_tries:
-                    base_polygon = self.tight(base_polygon, y_base)
+                    base_polygon = self.tight(base_polygon, y_base) or Polygon()
             else:
                 print(
                     "        -> Purity of the contradicting areas is equal for both "
-- 
2.43.0


From 0fc6a6fa784491f7236080d87610d01d79af7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 28/41] fix: honour the SIFTED flag, which turns the feature
 selection on or off

---
 instancespace/stages/sifted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f9bea15..1c82e5b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -557,9 +557,10 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED or not opts.flag:
             print(
-                "-> There are 3 or less features to do selection.",
+                "-> There are 3 or less features to do selection,",
+                "or the selection is turned off.",
                 "Skipping feature selection.",
             )
             selvars = np.arange(nfeats)
-- 
2.43.0


From e2f0ddd7d0787112bdf86184fa2d65fbafa35e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 29/41] fix: do not rename the columns of the model when saving
 it

---
 instancespace/_serialisers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..30b2db0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -184,16 +184,14 @@ def save_instance_space_to_csv(
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_summary = pilot_out.summary.rename(columns={0: "Row"})
+        pilot_summary.to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_summary = pythia_out.summary.rename(columns={"Algorithms": "Row"})
+    pythia_summary.to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 0de2783ce537715c17bdd61e34d9cc72c3637f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 30/41] fix: colour constant data instead of dividing by zero

---
 instancespace/_serialisers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 30b2db0..39b1371 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -426,6 +426,7 @@ def _colour_scale(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
     data_range = np.max(data, axis=0) - np.min(data, axis=0)
+    data_range = np.where(data_range == 0, 1, data_range)
     out: NDArray[np.int_] = np.floor(
         255.0 * ((data - np.min(data, axis=0)) / data_range),
     ).astype(np.int_)
@@ -437,6 +438,7 @@ def _colour_scale_g(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
     data_range = np.max(data) - np.min(data)
+    data_range = np.where(data_range == 0, 1, data_range)
     out: NDArray[np.int_] = np.round(
         255.0 * ((data - np.min(data)) / data_range),
     ).astype(np.int_)
-- 
2.43.0


From be4b990d9b7c1a8255e34a75115e75865617990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 31/41] fix: return the model of the last build

---
 instancespace/instance_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3828ea5 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
-- 
2.43.0


From 68efa09ef05fe4503068ac588e07eef88827014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 32/41] fix: fail to load metadata which is not text like any
 other unreadable file

---
 instancespace/data/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..c793f49 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,12 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (
+        FileNotFoundError,
+        OSError,
+        UnicodeDecodeError,
+        pd.errors.ParserError,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From 50981d8f61dba1a6e589051350f098e3f4f984ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 33/41] fix: keep the labels of a single instance as a series

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index c793f49..750a2d5 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze("columns")
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze("columns")
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From cf7f8dd1f99be3887cc96f6eb167600fbcc92ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 34/41] fix: report options which are not JSON objects as
 invalid

---
 instancespace/data/options.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..21e0d99 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -419,6 +419,9 @@ class InstanceSpaceOptions:
             If the JSON file contains undefined sub options.
 
         """
+        if not isinstance(file_contents, dict):
+            raise ValueError("The options must be a JSON object.")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
@@ -681,6 +684,11 @@ class InstanceSpaceOptions:
         if field_mapping is None:
             field_mapping = {}
 
+        if not isinstance(data, dict):
+            raise ValueError(
+                f"The options of {data_class.__name__} must be a JSON object.",
+            )
+
         # Get the default values for the dataclass fields
         default_values = {
             f.name: getattr(data_class.default(), f.name) for f in fields(data_class)
-- 
2.43.0


From ff69c5ddd39fde9bfcd92d879aff4ea6f14e97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 35/41] fix: make every argument of
 InstanceSpaceOptions.default optional, as documented

---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 21e0d99..19a1ba0 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -538,18 +538,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From 137676485186a89cc7ea8479b0793da0738daee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 36/41] fix: break ties on the actual best performance, not on
 the replaced zero

---
 instancespace/stages/prelim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 913dec6..7e40aef 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -670,9 +670,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         print(msg)
 
+        # ties are broken on the performances as they are, not on the replaced zeros
+        extreme = np.max if prelim_opts.max_perf else np.min
+        y_extreme = extreme(y_aux, axis=1)
+
         num_good_algos, p, beta = self._select_best_algorithms(
             y_raw,
-            y_best,
+            y_extreme,
             y_bin,
             nalgos,
             prelim_opts.beta_threshold,
-- 
2.43.0


From 3990550b8623b40df08ec114db9325143eeb461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:22 +0000
Subject: [PATCH 37/41] fix: performance plotted as individually normalised was
 divided before the minimum was taken off

---
 instancespace/_serialisers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 39b1371..1223e87 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -279,7 +279,7 @@ def save_instance_space_graphs(
     x_aux = (data.x - np.min(data.x, axis=0)) / x_range
 
     y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
+    y_ind = (data.y_raw - np.min(data.y_raw, axis=0)) / y_raw_range
 
     y_glb = np.log10(data.y_raw + 1)
     y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
-- 
2.43.0


From d8288291629517d370433910b40dc2c35acab199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:22 +0000
Subject: [PATCH 38/41] fix: performance plotted as globally normalised was
 scaled by the range of each algorithm

---
 instancespace/_serialisers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 1223e87..046bf1c 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -282,7 +282,7 @@ def save_instance_space_graphs(
     y_ind = (data.y_raw - np.min(data.y_raw, axis=0)) / y_raw_range
 
     y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
+    y_glb_range = np.max(y_glb) - np.min(y_glb)
     y_glb = (y_glb - np.min(y_glb)) / y_glb_range
 
     if options.trace.use_sim:
-- 
2.43.0


From 69c1b1682ab257944f5ef9f2eec1c205037c8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 39/41] fix: the graphs of best and predicted best algorithms
 left out the last algorithm

The algorithms are numbered from 1 and 0 stands for none, so that there is
one group more than there are algorithms.
---
 instancespace/_serialisers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 046bf1c..d6d7abd 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -547,7 +547,8 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    # 0 stands for no algorithm, the others are numbered from 1
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
-- 
2.43.0


From 97a0693e16fc178ff2173ad1002301526451b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 40/41] fix: each portfolio footprint was shown with the
 instances and name of the algorithm before

The algorithms are numbered from 1, their footprints are listed from 0.
---
 instancespace/_serialisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index d6d7abd..049b2a8 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -598,7 +598,8 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    # 0 stands for no algorithm, the others are numbered from 1
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -612,7 +613,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From 329205f4b05a09e778b7ab1578004cf4bbad947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:45 +0000
Subject: [PATCH 41/41] fix: instances on a line or coinciding ones have no
 footprint instead of failing TRACE

---
 instancespace/stages/trace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 6ee8708..5d32ab6 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -52,6 +52,7 @@ import alphashape
 import numpy as np
 import pandas as pd
 from numpy.typing import NDArray
+from scipy.spatial import QhullError
 from scipy.special import gamma
 from shapely.geometry import MultiPoint, MultiPolygon, Polygon
 from shapely.ops import triangulate, unary_union
@@ -727,9 +728,13 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
             return None
 
-        polygon = alphashape.alphashape(polydata, 2.15).simplify(
-            0.05,
-        )
+        try:
+            polygon = alphashape.alphashape(polydata, 2.15).simplify(
+                0.05,
+            )
+        except QhullError:
+            # Points on a line (or coinciding ones) have no area to outline
+            return None
 
         if not np.all(y_bin):
             if polygon.is_empty:
-- 
2.43.0

