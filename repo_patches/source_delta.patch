From 9b7e16328a942c168ca60ad091df89e35690a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/65] fix: allow replacing the only replaceable step or
 hyperparameter of a pipeline

---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From 296ebea28dcf3fe4ac0762a82ee047838d2c9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:06 +0000
Subject: [PATCH 02/65] fix: use the crossover result that respects the maximum
 pipeline length

---
 gama/genetic_programming/operator_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..2cd1543 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,7 +62,10 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
+            # The first returned individual is the one that respects `max_length`.
+            new_individual1, _ = self._mate(
+                new_individual1, new_individual2, *args, **kwargs
+            )
             new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
             return new_individual1
 
-- 
2.43.0


From d4028f51647e69956e9be5dbbbec7d13f9f047c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:06 +0000
Subject: [PATCH 03/65] fix: name the mutation applied to a pipeline that
 exceeds the maximum length

---
 gama/genetic_programming/mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index 0c6bcea..ad53a6e 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -170,4 +170,4 @@ def random_valid_mutation_in_place(
     mut_fn = random.choice(available_mutations)
     mut_fn(individual, primitive_set)
 
-    return mut_fn
+    return mut_fn.func if isinstance(mut_fn, partial) else mut_fn
-- 
2.43.0


From 5bce6cf8e155ef85f29f5fb5361e28f02764e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 04/65] fix: give the second Pareto front a lower rank than the
 first in NSGA-II

---
 gama/genetic_programming/nsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/nsga2.py b/gama/genetic_programming/nsga2.py
index 4def237..d68d2cf 100644
--- a/gama/genetic_programming/nsga2.py
+++ b/gama/genetic_programming/nsga2.py
@@ -139,7 +139,7 @@ def fast_non_dominated_sort(P: List[NSGAMeta]) -> List[List[NSGAMeta]]:
             for q in p.dominating:
                 q.domination_counter -= 1
                 if q.domination_counter == 0:
-                    q.rank = i + 1
+                    q.rank = i + 2  # fronts[0] has rank 1
                     fronts[i + 1].append(q)
         i += 1
     return fronts
-- 
2.43.0


From a1139b22df0ec907b145f4238f0462f2d4a7123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 05/65] fix: select parents on all objectives, whether there is
 one or more than two

---
 gama/genetic_programming/selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index dd403de..8356699 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -18,7 +18,10 @@ def create_from_population(
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
     offspring = []
-    metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
+    # One metric per objective, there may be one (no length regularization) or many.
+    metrics = [
+        lambda ind, i=i: ind.fitness.values[i] for i in range(len(pop[0].fitness.values))
+    ]
     parent_pairs = nsga2_select(pop, n, metrics)
     for ind1, ind2 in parent_pairs:
         if random.random() < cxpb and len(_valid_crossover_functions(ind1, ind2)) > 0:
-- 
2.43.0


From 560a9b738810f9c8289bdc318fe78f495a519f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 06/65] fix: continue evolutionary search when fewer than three
 pipelines succeeded

---
 gama/genetic_programming/selection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index 8356699..f42fd45 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -16,7 +16,14 @@ def create_from_population(
     cxpb: float,
     mutpb: float,
 ) -> List[Individual]:
-    """Creates n new individuals based on the population."""
+    """Creates n new individuals based on the population.
+
+    If the population is too small to select parents from, they are created at random.
+    """
+    if len(pop) < 3:
+        # Selecting a pair of parents requires a population of at least three.
+        return [operator_shell.individual() for _ in range(n)]
+
     offspring = []
     # One metric per objective, there may be one (no length regularization) or many.
     metrics = [
-- 
2.43.0


From 1ff60cf776e4cd825909bc72a47bc6db5d419d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 07/65] fix: deliver results of calls that do not return an
 evaluation

---
 gama/utilities/generic/async_evaluator.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..c90c7f4 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -354,15 +354,13 @@ def evaluator_daemon(
             try:
                 future = input_queue.get(block=False)
                 future.execute(default_parameters)
-                if future.result:
-                    if isinstance(future.result, tuple):
-                        result = future.result[0]
-                    else:
-                        result = future.result
-                    if isinstance(result.error, MemoryError):
-                        # Can't pickle MemoryErrors. Should work around this later.
-                        result.error = "MemoryError"
-                        gc.collect()
+                result = future.result
+                if isinstance(result, tuple) and len(result) > 0:
+                    result = result[0]
+                if isinstance(getattr(result, "error", None), MemoryError):
+                    # Can't pickle MemoryErrors. Should work around this later.
+                    result.error = "MemoryError"
+                    gc.collect()
                 output_queue.put(future)
             except (MemoryError, struct.error) as e:
                 future.result = None
-- 
2.43.0


From 7c8635114e9b639f1c76b8a946ef086e1eb441ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 08/65] fix: replace worker processes that died instead of
 waiting for them forever

---
 gama/utilities/generic/async_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index c90c7f4..f0ef5f7 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -316,10 +316,16 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
+                if process.status() == psutil.STATUS_ZOMBIE:
+                    # A dead child process lingers as zombie until we `wait` for it.
+                    process.wait(timeout=60)
+                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
                 self._processes = [p for p in self._processes if p.pid != process.pid]
+                # The call that was being evaluated (if any) will never be completed.
+                self.job_queue_size -= 1
                 self._start_worker_process()
 
 
-- 
2.43.0


From cca155f98e4bade8f2f345c83ae5a84b7d8d710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 09/65] fix: start a new search with an empty output

---
 gama/search_methods/async_ea.py      | 2 ++
 gama/search_methods/random_search.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index b7d6bd6..46486ab 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -67,6 +67,8 @@ class AsyncEA(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        # `start_candidates` may be the output of an earlier search, leave that as is.
+        self.output = []
         self.output = async_ea(
             operations, self.output, start_candidates, **self.hyperparameters
         )
diff --git a/gama/search_methods/random_search.py b/gama/search_methods/random_search.py
index ddf5ff6..b77f7fa 100644
--- a/gama/search_methods/random_search.py
+++ b/gama/search_methods/random_search.py
@@ -25,6 +25,8 @@ class RandomSearch(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        # Individuals found in an earlier search were evaluated on that search's data.
+        self.output = []
         random_search(operations, self.output, start_candidates)
 
 
-- 
2.43.0


From 6437df3f9edb92f65f82690b8fa506fabc342067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:39 +0000
Subject: [PATCH 10/65] fix: keep the population when a restart is due but no
 evaluations are left

---
 gama/search_methods/async_ea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/async_ea.py b/gama/search_methods/async_ea.py
index 46486ab..7680b30 100644
--- a/gama/search_methods/async_ea.py
+++ b/gama/search_methods/async_ea.py
@@ -144,8 +144,11 @@ def async_ea(
                     new_individual = ops.create(current_population, 1)[0]
                     async_.submit(ops.evaluate, new_individual)
 
-                should_restart = restart_callback is not None and restart_callback()
                 n_evaluated_individuals += 1
+                should_restart = restart_callback is not None and restart_callback()
+                if n_evaluated_individuals == max_n_evaluations:
+                    # A new population can't be evaluated anymore: keep the current.
+                    should_restart = False
                 if should_restart:
                     log.info("Restart criterion met. Creating new random population.")
                     start_candidates = [ops.individual() for _ in range(max_pop_size)]
-- 
2.43.0


From fa61cd618b7fbe7ab46904d88f4131aeaed215fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 11/65] fix: return what ASHA found when interrupted before a
 rung is reached or by the user

---
 gama/search_methods/asha.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..ff617ea 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -194,17 +194,16 @@ def asha(
                     rung_individuals[rung].append((loss, individual))
                 start_new_job()
 
-            highest_rung_reached = max(rungs)
     except stopit.TimeoutException:
         log.info("ASHA ended due to timeout.")
-        reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
-        if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
     finally:
         for rung, individuals in rung_individuals.items():
             log.info(f"[{len(individuals)}] {rung}")
-        return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
+        # The search may be interrupted at any time, even before any evaluation is done.
+        reached_rungs = [rung for rung, inds in rung_individuals.items() if inds != []]
+        if not reached_rungs:
+            return []
+        return list(map(lambda p: p[1], rung_individuals[max(reached_rungs)]))
 
 
 def evaluate_on_rung(individual, rung, max_rung, evaluate_individual, *args, **kwargs):
-- 
2.43.0


From 1f11bf8d40b80a698bc5a7fce7d2b8c98635c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 12/65] fix: don't add an extra rung to ASHA because of
 floating point rounding

---
 gama/search_methods/asha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index ff617ea..e5ae3ad 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -128,8 +128,9 @@ def asha(
     # Note that here we index the rungs by all possible rungs (0..ceil(log_eta(R/r))),
     # and ignore the first minimum_early_stopping_rate rungs.
     # This contrasts the paper where rung 0 refers to the first used one.
+    # Rounding, as e.g. math.log(125, 5) is slightly more than 3.
     max_rung = math.ceil(
-        math.log(maximum_resource / minimum_resource, reduction_factor)
+        round(math.log(maximum_resource / minimum_resource, reduction_factor), 9)
     )
     rungs = range(minimum_early_stopping_rate, max_rung + 1)
     rung_resources = {
-- 
2.43.0


From 21ed48b2510cdf2884d2f6b59da7301cc1d6d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 13/65] fix: don't remove the start candidates from the list of
 the caller in ASHA

---
 gama/search_methods/asha.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index e5ae3ad..35eac85 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -133,6 +133,7 @@ def asha(
         round(math.log(maximum_resource / minimum_resource, reduction_factor), 9)
     )
     rungs = range(minimum_early_stopping_rate, max_rung + 1)
+    start_candidates = list(start_candidates)  # the list of the caller is not ours
     rung_resources = {
         rung: min(minimum_resource * (reduction_factor**rung), maximum_resource)
         for rung in rungs
-- 
2.43.0


From 580d3409da26aef3c24b32fd5c75ccf02d6cec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 14/65] fix: never train on the test fold when evaluating on a
 subsample

The indices drawn are positions within the training fold, but were used as
positions within the whole data set.
---
 gama/genetic_programming/compilers/scikitlearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..af66708 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -105,9 +105,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From 2171f75c6946e7a87a477a1ad2b6ebb469bca5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 15/65] fix: don't report partial results of an evaluation that
 fails after scoring

---
 gama/genetic_programming/compilers/scikitlearn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index af66708..82b02e7 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,8 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failed_scores = tuple([float("-inf")] * len(metrics))
+    scores = failed_scores
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +145,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failed_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +155,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failed_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From 7a52ba571b341f4e941571650abb8e5813348dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 16/65] fix: keep the files of several evaluations of one
 individual apart

When the worse evaluation dropped out of the best, the file of the better one
was removed.
---
 gama/utilities/evaluation_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..8ec421d 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -4,6 +4,7 @@ import logging
 from typing import Tuple, List, Optional, Union, Dict
 import pickle
 import os
+import uuid
 
 import numpy as np
 import pandas as pd
@@ -44,7 +45,9 @@ class Evaluation:
 
     def to_disk(self, directory: str) -> None:
         """Save Evaluation in the provided directory."""
-        self._cache_file = os.path.join(directory, f"{str(self.individual._id)}.pkl")
+        # An individual may be evaluated more than once, each has a file of its own.
+        file_name = f"{str(self.individual._id)}_{str(uuid.uuid4())}.pkl"
+        self._cache_file = os.path.join(directory, file_name)
         with open(self._cache_file, "wb") as fh:
             pickle.dump((self._estimators, self._predictions), fh)
         self._estimators, self._predictions = [], None
-- 
2.43.0


From e527aee14f1af786800a1e0115e6ad81e8fc89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 17/65] fix: allow pickling an ensemble, without damage to the
 ensemble itself

---
 gama/postprocessing/ensemble.py      | 14 ++++++++------
 gama/utilities/evaluation_library.py |  7 +------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..62fe9e3 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -373,11 +373,14 @@ class Ensemble(object):
                 "Removing anything that is not needed for predict-functionality."
                 "Functionality to expand ensemble after unpickle is not available."
             )
-            self._models = None
-            self._model_library = None
             # self._y_true can not be removed as it is needed to ensure proper
             # dimensionality of predictions.
             # Alternatively, one could just save the number of classes instead.
+            state = self.__dict__.copy()
+            state["_models"] = None
+            state["_model_library"] = None
+            state["evaluation_library"] = None
+            return state
 
         return self.__dict__.copy()
 
@@ -426,11 +429,10 @@ class EnsembleClassifier(Ensemble):
             if self._prediction_sample is not None:
                 self._y = self._y[self._prediction_sample]
         else:
+            self._prediction_transformation = self._one_hot_encode_predictions
 
-            def one_hot_encode_predictions(predictions):
-                return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
-
-            self._prediction_transformation = one_hot_encode_predictions
+    def _one_hot_encode_predictions(self, predictions):
+        return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
     def _ensemble_validation_score(self, prediction_to_validate=None):
         if prediction_to_validate is None:
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index 8ec421d..c1c2596 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -152,11 +152,6 @@ class EvaluationLibrary:
         if not os.path.exists(self._cache):
             os.mkdir(self._cache)
 
-        def main_node_str(e: Evaluation):
-            return str(e.individual.main_node)
-
-        self._lookup_key = main_node_str
-
         if sample is not None:
             self._sample = sample
         elif n is None:
@@ -249,7 +244,7 @@ class EvaluationLibrary:
 
             self.other_evaluations.append(removed)
 
-        self.lookup[self._lookup_key(evaluation)] = evaluation
+        self.lookup[str(evaluation.individual.main_node)] = evaluation
 
     def clear_cache(self) -> None:
         for file in os.listdir(self._cache):
-- 
2.43.0


From 380170f45bb2cc4082c5d668764512dfc1bfb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 18/65] fix: don't sample the labels of an ensemble twice

The labels are already sampled by the constructor of the base class.
---
 gama/postprocessing/ensemble.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 62fe9e3..4b74fa2 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -426,8 +426,6 @@ class EnsembleClassifier(Ensemble):
             self._y = self._one_hot_encoder.transform(
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
-            if self._prediction_sample is not None:
-                self._y = self._y[self._prediction_sample]
         else:
             self._prediction_transformation = self._one_hot_encode_predictions
 
-- 
2.43.0


From acb8e95531d6901fa64ba1b0031bc577836c22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:07 +0000
Subject: [PATCH 19/65] fix: respect `max_models` and `hillclimb_size` when
 building an ensemble

None did not mean all, and no more than 200 models and 10,000 predictions were
ever used.
---
 gama/postprocessing/ensemble.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 4b74fa2..7e02cc9 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -57,8 +57,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             ensemble_size=(ensemble_size, 25),
             metric=(None, None),
             evaluation_library=(None, None),
-            hillclimb_size=(hillclimb_size, 10_000),
-            max_models=(max_models, 200),
+            hillclimb_size=(hillclimb_size, None),  # None means all
+            max_models=(max_models, None),  # None means all
         )
         self._ensemble: Optional[Ensemble] = None
 
@@ -78,6 +78,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             timeout,
             self.hyperparameters["metric"],
             self.hyperparameters["evaluation_library"],
+            hillclimb_size=self.hyperparameters["hillclimb_size"],
+            max_models=self.hyperparameters["max_models"],
         )
         return self._ensemble
 
@@ -206,7 +208,10 @@ class Ensemble(object):
     def model_library(self):
         if not self._model_library:
             self._model_library = []
-            for evaluation in self.evaluation_library.n_best(self._use_top_n_only):
+            n_models = self._use_top_n_only
+            if n_models is None:
+                n_models = len(self.evaluation_library.top_evaluations)
+            for evaluation in self.evaluation_library.n_best(n_models):
                 predictions = evaluation.predictions
                 if self._prediction_transformation:
                     predictions = self._prediction_transformation(predictions)
@@ -492,15 +497,29 @@ def build_fit_ensemble(
     metric: Metric,
     evaluation_library: EvaluationLibrary,
     encoder: Optional[object] = None,
+    hillclimb_size: Optional[int] = 10_000,
+    max_models: Optional[int] = 200,
 ) -> Ensemble:
     """Construct an Ensemble of models, optimizing for metric."""
     start_build = time.time()
 
     log.debug("Building ensemble.")
     if metric.task_type == MetricType.REGRESSION:
-        ensemble = EnsembleRegressor(metric, y, evaluation_library)  # type: Ensemble
+        ensemble: Ensemble = EnsembleRegressor(
+            metric,
+            y,
+            evaluation_library,
+            downsample_to=hillclimb_size,
+            use_top_n_only=max_models,
+        )
     elif metric.task_type == MetricType.CLASSIFICATION:
-        ensemble = EnsembleClassifier(metric, y, evaluation_library=evaluation_library)
+        ensemble = EnsembleClassifier(
+            metric,
+            y,
+            evaluation_library=evaluation_library,
+            downsample_to=hillclimb_size,
+            use_top_n_only=max_models,
+        )
         ensemble._label_encoder = encoder
     else:
         raise ValueError(f"Unknown metric task type {metric.task_type}")
-- 
2.43.0


From 22e6f547bcb849a7512893631c633e0d1e43b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 20/65] fix: convert an ensemble with models to str

---
 gama/postprocessing/ensemble.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 7e02cc9..0e5d3fc 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -366,9 +366,10 @@ class Ensemble(object):
         if not self._models:
             return "Ensemble with no models."
         _str_ = f"Ensemble of {len(self._models)} pipelines.\nR\tW\tScore\tPipeline\n"
-        models = sorted(self._models.values(), key=lambda x: x[0].validation_score)
+        models = sorted(self._models.values(), key=lambda x: x[0].score)
         for i, (model, weight) in enumerate(models):
-            _str_ += f"{i}\t{weight}\t{model.validation_score[0]:.4f}\t{model.name}\n"
+            name = model.individual.short_name()
+            _str_ += f"{i}\t{weight}\t{model.score[0]:.4f}\t{name}\n"
         return _str_
 
     def __getstate__(self):
-- 
2.43.0


From c43069df3e15a2f1559e8014b123e9418286be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 21/65] fix: score predictions with the averaging method of the
 metric

E.g., f1_macro, precision_micro and recall_weighted all used binary averaging.
---
 gama/utilities/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 2c4e21d..07250f0 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -1,4 +1,5 @@
 from enum import Enum
+from functools import partial
 from typing import Iterable, Tuple, Union
 
 from sklearn.metrics import get_scorer
@@ -54,7 +55,7 @@ class Metric:
                 "Not sure which type of metric this is. Please raise an issue."
             )
 
-        self.score = self.scorer._score_func
+        self.score = partial(self.scorer._score_func, **self.scorer._kwargs)
 
     def __call__(self, *args, **kwargs) -> float:
         return self.scorer(*args, **kwargs)
-- 
2.43.0


From d4a99d671a74984f98e8dbd8e605751273af137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 22/65] fix: remove the rows without label when the indices of
 x and y differ

---
 gama/data_formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 62628d4..a318eae 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -70,7 +70,9 @@ def remove_unlabeled_rows(
             f"Target vector has been found to contain {sum(unlabeled)} NaN-labels, "
             f"these rows will be ignored."
         )
-        x, y = x.loc[~unlabeled], y.loc[~unlabeled]
+        # The rows of x and y match by position, their indices may differ.
+        labeled = ~unlabeled.to_numpy()
+        x, y = x.loc[labeled], y.loc[labeled]
     return x, y
 
 
-- 
2.43.0


From c310c5348a17fc630bdd6789b0e684af2e4679ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 23/65] fix: use the first column of a target that is a
 DataFrame, as documented

---
 gama/data_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index a318eae..8889ce0 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -47,7 +47,7 @@ def format_y(
         y = np.argmax(y, axis=1) if y.shape[1] > 1 else y.squeeze()
     if y_type == pd.Series:
         if isinstance(y, pd.DataFrame):
-            y = y.squeeze()
+            y = y.iloc[:, 0]
         elif isinstance(y, np.ndarray):
             y = pd.Series(y)
     elif y_type == pd.DataFrame:
-- 
2.43.0


From b2e1908edad9ecce6df1fb340679bc9fdfb540ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 24/65] fix: ignore rows without label in classification, as
 documented for fit

---
 gama/GamaClassifier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..aeb8c08 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,6 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
+from gama.data_formatting import format_x_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -125,11 +126,12 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        # Without rows that have no label, or "no label" would be a class of its own.
+        x, y = format_x_y(x, y)
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = self._label_encoder.transform(y)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From 1b08d9a1f57540aa439cb6a537d10e2da6d3d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 25/65] fix: return the fitted classifier from fit, as the base
 class does

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index aeb8c08..b18df2f 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -141,7 +141,7 @@ class GamaClassifier(Gama):
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
                 m.scorer._kwargs.update({"labels": y})
 
-        super().fit(x, y, *args, **kwargs)
+        return super().fit(x, y, *args, **kwargs)
 
     def _encode_labels(self, y):
         self._label_encoder = LabelEncoder().fit(y)
-- 
2.43.0


From 685c9237e67eb6be45a00bccdc89b84178b8d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 26/65] fix: give each label to the scorer only once

Each duplicate adds to the weight of the label, so that e.g. f1_macro was not
the unweighted mean over the classes.
---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index b18df2f..d7572df 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -139,7 +139,7 @@ class GamaClassifier(Gama):
         # data sets during pipeline evaluation.
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
-                m.scorer._kwargs.update({"labels": y})
+                m.scorer._kwargs.update({"labels": np.unique(y)})
 
         return super().fit(x, y, *args, **kwargs)
 
-- 
2.43.0


From c5a998026ca3d54805c27f241c1d292d0ad7e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 27/65] fix: allow another call to fit after the files of the
 first are cleaned up

Also don't use the models of the earlier fit in a new ensemble: they can be of
different data.
---
 gama/GamaClassifier.py               |  1 -
 gama/gama.py                         |  9 +++++++++
 gama/utilities/evaluation_library.py | 10 ++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index d7572df..a1b4d3f 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -132,7 +132,6 @@ class GamaClassifier(Gama):
         if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
             y = self._label_encoder.transform(y)
-        self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
         # the cross validator does not encounter unseen labels in smaller
diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..0009b3f 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -548,6 +548,15 @@ class Gama(ABC):
                 self._operator_set._compile,
                 preprocessing_steps=self._fixed_pipeline_extension,
             )
+            # The evaluations of an earlier fit may be on other data and their files may
+            # have been cleaned up, so they can't be used to construct a new model.
+            self._evaluation_library.discard_models()
+            if is_classification:
+                self._evaluation_library.determine_sample_indices(stratify=self._y)
+            else:
+                self._evaluation_library.determine_sample_indices(
+                    prediction_size=len(self._y)
+                )
             store_pipelines = (
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index c1c2596..e011dd6 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -246,6 +246,16 @@ class EvaluationLibrary:
 
         self.lookup[str(evaluation.individual.main_node)] = evaluation
 
+    def discard_models(self) -> None:
+        """Discard the estimators and predictions of all evaluations saved so far."""
+        os.makedirs(self._cache, exist_ok=True)
+        for evaluation in self.top_evaluations:
+            if os.path.exists(evaluation._cache_file):
+                evaluation.remove_from_disk()
+            evaluation._cache_file = ""
+        self.other_evaluations.extend(self.top_evaluations)
+        self.top_evaluations = []
+
     def clear_cache(self) -> None:
         for file in os.listdir(self._cache):
             os.remove(os.path.join(self._cache, file))
-- 
2.43.0


From a21fdbe345c7c789181d3bb7434f7f0013a2ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 28/65] fix: use the workers and memory limit of this instance

Those of the last constructed instance were used for all.
---
 gama/gama.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 0009b3f..33f6541 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -246,16 +246,8 @@ class Gama(ABC):
             self.cleanup("all")
             raise ValueError(err)
 
-        setattr(
-            AsyncEvaluator,
-            "__init__",
-            partialmethod(
-                AsyncEvaluator.__init__,
-                n_workers=n_jobs,
-                memory_limit_mb=max_memory_mb,
-                logfile=os.path.join(self.output_directory, "memory.log"),
-            ),
-        )
+        self._n_jobs = n_jobs
+        self._max_memory_mb = max_memory_mb
 
         if max_eval_time is None:
             max_eval_time = round(0.1 * max_total_time)
@@ -650,6 +642,17 @@ class Gama(ABC):
             metrics=self._metrics,
         )
         AsyncEvaluator.defaults = dict(evaluate_pipeline=evaluate_pipeline)
+        # Other instances may have been constructed or used in the meantime.
+        setattr(
+            AsyncEvaluator,
+            "__init__",
+            partialmethod(
+                AsyncEvaluator.__init__,
+                n_workers=self._n_jobs,
+                memory_limit_mb=self._max_memory_mb,
+                logfile=os.path.join(self.output_directory, "memory.log"),
+            ),
+        )
 
         self._operator_set.evaluate = partial(
             gama.genetic_programming.compilers.scikitlearn.evaluate_individual,
-- 
2.43.0


From 971fc974118e85319127f300d44c7d1ed094cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 29/65] fix: allow time for evaluations by default when
 max_total_time is 5 or less

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 33f6541..0022bd8 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -250,7 +250,7 @@ class Gama(ABC):
         self._max_memory_mb = max_memory_mb
 
         if max_eval_time is None:
-            max_eval_time = round(0.1 * max_total_time)
+            max_eval_time = max(1, round(0.1 * max_total_time))
         if max_eval_time > max_total_time:
             log.warning(
                 f"max_eval_time ({max_eval_time}) > max_total_time ({max_total_time}) "
-- 
2.43.0


From 965116230fc98a601d44f078b9046e72f2cdd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 30/65] fix: raise on an invalid value for `store` before, not
 after, the search

---
 gama/gama.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 0022bd8..5541cd8 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -197,6 +197,9 @@ class Gama(ABC):
             else:
                 raise ValueError(f"Unknown value for {preset=}'")
 
+        if store not in {"nothing", "models", "logs", "all"}:
+            raise ValueError(f"Unknown value for {store=}")
+
         if not output_directory:
             output_directory = f"gama_{str(uuid.uuid4())}"
         self.output_directory = os.path.abspath(os.path.expanduser(output_directory))
-- 
2.43.0


From 950991e51855dae8d843639d29850300e78ca3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 31/65] fix: end an activity also when an exception is raised

---
 gama/utilities/generic/timekeeper.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gama/utilities/generic/timekeeper.py b/gama/utilities/generic/timekeeper.py
index 7253c8b..6d382c6 100644
--- a/gama/utilities/generic/timekeeper.py
+++ b/gama/utilities/generic/timekeeper.py
@@ -114,9 +114,11 @@ class TimeKeeper:
         act = f"{activity} {','.join(map(str, activity_meta))}"
         log.info(f"START: {act}")
 
-        with Stopwatch() as sw:
-            self.current_activity = Activity(activity, sw, time_limit)
-            self.activities.append(self.current_activity)
-            yield sw
-        self.current_activity = None
-        log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
+        try:
+            with Stopwatch() as sw:
+                self.current_activity = Activity(activity, sw, time_limit)
+                self.activities.append(self.current_activity)
+                yield sw
+        finally:
+            self.current_activity = None
+            log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
-- 
2.43.0


From a7f297794421b7158aa7ae515b257e6aa6abff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 32/65] fix: don't change the configurations that are merged

Importing GamaReport added the hyperparameters for regression to the search
space for classification.
---
 gama/configuration/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index 705ec26..b4b2672 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+import copy
 from typing import Dict, Any, Union, List, Callable, Tuple
 
 import sklearn
@@ -115,7 +116,7 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
             merged[algorithm] = hparams2
             continue
 
-        hparams = merged[algorithm]
+        hparams = merged[algorithm] = copy.copy(merged[algorithm])
         if isinstance(hparams, list) and isinstance(hparams2, list):
             merged[algorithm] = list(set(hparams + hparams2))
             continue  # Here the algorithm is actually a shared hyperparameter.
-- 
2.43.0


From e594662f0b56fcd87924d369b22f50bf7841c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 33/65] fix: don't log the search space with the
 hyperparameters of GAMA

GamaReport could not read the log. `config` was excluded, but has been renamed.
---
 gama/gama.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 5541cd8..b9403a9 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -225,7 +225,15 @@ class Gama(ABC):
             [
                 f"{k}={v}"
                 for (k, v) in locals().items()
-                if k not in ["self", "config", "log_file", "log_handler", "log_format"]
+                if k
+                not in [
+                    "self",
+                    "config",
+                    "search_space",
+                    "log_file",
+                    "log_handler",
+                    "log_format",
+                ]
             ]
         )
         log.info(f"Using GAMA version {__version__}.")
-- 
2.43.0


From 5b39b7b5e0e097d6b8ae1172df6aa088f9297174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 34/65] fix: read logs of a search without length
 regularization in GamaReport

---
 gama/logging/GamaReport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 56e6af4..c27f6d8 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -58,7 +58,7 @@ class GamaReport:
                 self.phases.append((phase, algorithm, start_time, d))
 
         self.metrics = self.hyperparameters["scoring"].split(",")
-        if self.hyperparameters["regularize_length"]:
+        if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
         self.incomplete = len(self.phases) < 3
@@ -86,7 +86,8 @@ class GamaReport:
             df = df.rename(columns=dict(t_start="start", t_wallclock="duration"))
 
             def tuple_to_metrics(tuple_str):
-                return pd.Series([float(value) for value in tuple_str[1:-1].split(",")])
+                values = tuple_str[1:-1].rstrip(",").split(",")  # e.g. "(0.5,)"
+                return pd.Series([float(value) for value in values])
 
             df[self.metrics] = df.score.apply(tuple_to_metrics)
             df.start = pd.to_datetime(
-- 
2.43.0


From ef24b6f37a5cb0a9c85346efcd70142e3fbd280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 35/65] fix: read logs of a search with more than one metric in
 GamaReport

---
 gama/logging/GamaReport.py | 7 +++++++
 gama/utilities/metrics.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index c27f6d8..86a807b 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -1,4 +1,5 @@
 import os
+import re
 from datetime import datetime, timedelta
 from typing import List, Tuple, Dict
 
@@ -130,6 +131,12 @@ class GamaReport:
 # new
 def init_to_hps(init_line: str) -> Dict[str, str]:
     all_arguments = init_line.split("(", maxsplit=1)[-1].rsplit(")", maxsplit=1)[0]
+    # More than one metric is logged as tuple or list, e.g. "scoring=('r2', 'max_error')"
+    scoring = re.search(r"scoring=[(\[](.*?),?[)\]]", all_arguments)
+    if scoring:
+        all_arguments = all_arguments.replace(scoring.group(0) + ",", "", 1)
+        metrics = re.sub(r"['\" ]", "", scoring.group(1))
+        return {**init_to_hps(f"({all_arguments})"), "scoring": metrics}
     # A little hackery to get nested configurations (e.g. of search) to work
     # only supports one nested level - will do proper parsing later
     for token in ["()", "(", ")", ",,"]:
diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 07250f0..9474525 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -57,6 +57,9 @@ class Metric:
 
         self.score = partial(self.scorer._score_func, **self.scorer._kwargs)
 
+    def __repr__(self) -> str:
+        return self.name
+
     def __call__(self, *args, **kwargs) -> float:
         return self.scorer(*args, **kwargs)
 
-- 
2.43.0


From 1156c1e40d8c4a80500e6abe190d26f27d786e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 36/65] fix: quote values with separators or newlines in the
 evaluation log

The message of an error may have those, and GamaReport could not read the log.
---
 gama/logging/evaluation_logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..3577063 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -1,3 +1,4 @@
+import csv
 from datetime import datetime
 from functools import partial
 import operator
@@ -67,8 +68,9 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
-        with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+        with open(self._file_path, "a", newline="") as evaluations:
+            writer = csv.writer(evaluations, delimiter=self._sep, lineterminator="\n")
+            writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From 94ddce8c8322b1093c5425e934a5192914eabadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:45 +0000
Subject: [PATCH 37/65] fix: read logs in GamaReport whatever the name of the
 output directory

---
 gama/logging/GamaReport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 86a807b..e456539 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -141,4 +141,5 @@ def init_to_hps(init_line: str) -> Dict[str, str]:
     # only supports one nested level - will do proper parsing later
     for token in ["()", "(", ")", ",,"]:
         all_arguments = all_arguments.replace(token, ",")
-    return dict(hp.split("=") for hp in all_arguments.split(","))
+    # The path of the output directory may also contain any of these tokens.
+    return dict(hp.split("=", 1) for hp in all_arguments.split(",") if "=" in hp)
-- 
2.43.0


From 35cc78791771ca7d75cc934dcf061c44f09fa554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:45 +0000
Subject: [PATCH 38/65] fix: log to the file of the instance that is in use

Every instance wrote to the log files of all instances constructed before it.
---
 gama/gama.py                      |  7 +++++--
 gama/logging/utility_functions.py | 11 +++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index b9403a9..fa79c23 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -40,7 +40,7 @@ from gama.data_loading import X_y_from_file
 from gama.data_formatting import format_x_y
 from gama.search_methods.async_ea import AsyncEA
 from gama.utilities.generic.timekeeper import TimeKeeper
-from gama.logging.utility_functions import register_stream_log
+from gama.logging.utility_functions import register_file_log, register_stream_log
 from gama.utilities.preprocessing import (
     basic_encoding,
     basic_pipeline_extension,
@@ -213,13 +213,15 @@ class Gama(ABC):
             )
 
         register_stream_log(verbosity)
+        self._log_handler: Optional[logging.Handler] = None
         if store in {"logs", "all"}:
             log_file = os.path.join(self.output_directory, "gama.log")
             log_handler = logging.FileHandler(log_file)
             log_handler.setLevel(logging.DEBUG)
             log_format = logging.Formatter("[%(asctime)s - %(name)s] %(message)s")
             log_handler.setFormatter(log_format)
-            logging.getLogger("gama").addHandler(log_handler)
+            self._log_handler = log_handler
+        register_file_log(self._log_handler)
 
         arguments = ",".join(
             [
@@ -534,6 +536,7 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        register_file_log(self._log_handler)
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
diff --git a/gama/logging/utility_functions.py b/gama/logging/utility_functions.py
index d99c498..2aaebb7 100644
--- a/gama/logging/utility_functions.py
+++ b/gama/logging/utility_functions.py
@@ -1,5 +1,6 @@
 import logging
 import sys
+from typing import Optional
 
 gama_log = logging.getLogger("gama")
 
@@ -24,3 +25,13 @@ def register_stream_log(verbosity: int) -> None:
     setattr(stdout_streamhandler, "tag", "machine_set")
     stdout_streamhandler.setLevel(verbosity)
     gama_log.addHandler(stdout_streamhandler)
+
+
+def register_file_log(handler: Optional[logging.Handler]) -> None:
+    """Log to `handler`, instead of to the file of any other GAMA instance."""
+    for other in list(gama_log.handlers):
+        if getattr(other, "tag", None) == "gama_file":
+            gama_log.removeHandler(other)
+    if handler is not None:
+        setattr(handler, "tag", "gama_file")
+        gama_log.addHandler(handler)
-- 
2.43.0


From 97cfff7e22620062c0cd519fdedaa5d3cbaa30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 39/65] fix: score with roc_auc, or when not all classes are in
 the test data

---
 gama/gama.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index fa79c23..798e289 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -442,12 +442,16 @@ class Gama(ABC):
         float
             The score obtained on the given test data according to the `scoring` metric.
         """
-        predictions = (
-            self.predict_proba(x)  # type: ignore
-            if self._metrics[0].requires_probabilities
-            else self.predict(x)
-        )
-        return self._metrics[0].score(y, predictions)
+        metric = self._metrics[0]
+        if not metric.requires_probabilities:
+            return metric.score(y, self.predict(x))
+
+        predictions = self.predict_proba(x)  # type: ignore
+        if metric.name == "roc_auc":
+            # For binary problems, the probability of the 'positive' class is expected.
+            return metric.score(y, predictions[:, 1])
+        # Not all classes need to be present in `y`.
+        return metric.score(y, predictions, labels=self._label_encoder.classes_)
 
     def score_from_file(
         self,
-- 
2.43.0


From c34be2ba45d28946af549c1489a387a64a5dbc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 40/65] fix: respect the `-sep` argument of the command line
 interface

---
 gama/utilities/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index 9612a62..bcddd5e 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -145,7 +145,7 @@ def main(command: Union[str, List[str]] = ""):
 
     kwargs = {}
     if args.input_file.lower().endswith(".csv") and args.separator is not None:
-        kwargs["sep"] = args.seperator
+        kwargs["sep"] = args.separator
 
     x, y = X_y_from_file(
         file_path=args.input_file.lower(),
-- 
2.43.0


From adfd3e91f23b16d474f970cc0bc600e0663b0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 41/65] fix: load files with capitals in their name or
 extension

---
 gama/data_loading.py  | 6 +++---
 gama/utilities/cli.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 246e867..5ca58c0 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -22,7 +22,7 @@ def sniff_csv_meta(file_path: str) -> Tuple[str, bool]:
 
 def load_csv_header(file_path: str, **kwargs) -> List[str]:
     """Return column names in the header, or 0...N if no header is present."""
-    if not file_path.endswith(".csv"):
+    if not file_path.lower().endswith(".csv"):
         raise ValueError(f"{file_path} is not a file with .csv extension.")
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
@@ -117,9 +117,9 @@ def file_to_pandas(
     -------
     pd.DataFrame
     """
-    if file_path.endswith(".arff"):
+    if file_path.lower().endswith(".arff"):
         data = arff_to_pandas(file_path, encoding, **kwargs)
-    elif file_path.endswith(".csv"):
+    elif file_path.lower().endswith(".csv"):
         data = csv_to_pandas(file_path, **kwargs)
     else:
         raise ValueError("Only csv and arff files supported.")
diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index bcddd5e..36ec606 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -138,7 +138,7 @@ def main(command: Union[str, List[str]] = ""):
     args = parser.parse_args(command) if command else parser.parse_args()
 
     print("CLI: Processing input")
-    if not os.path.exists(args.input_file.lower()):
+    if not os.path.exists(args.input_file):
         raise FileNotFoundError(args.input_file)
     if args.input_file.lower().split(".")[-1] not in ["csv", "arff"]:
         raise ValueError("Unknown file extension. Please use csv or arff.")
@@ -148,7 +148,7 @@ def main(command: Union[str, List[str]] = ""):
         kwargs["sep"] = args.separator
 
     x, y = X_y_from_file(
-        file_path=args.input_file.lower(),
+        file_path=args.input_file,
         split_column=args.target,
         **kwargs,
     )
-- 
2.43.0


From 7a2923feacb66a29ef9c0b02dfe7a634da146bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 42/65] fix: load the header of a csv file without newline at
 the end

---
 gama/data_loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 5ca58c0..8e8d6ec 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -28,7 +28,7 @@ def load_csv_header(file_path: str, **kwargs) -> List[str]:
     sep = kwargs.get("sep", sep)
 
     with open(file_path, "r") as csv_file:
-        first_line = csv_file.readline()[:-1]
+        first_line = csv_file.readline().rstrip("\n")
 
     if has_header:
         return first_line.split(sep)
-- 
2.43.0


From 21b200d039eadf62204bc5bdd1c616cbd4988fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 43/65] fix: don't abbreviate the parameters of preprocessing
 steps in exported code

---
 gama/utilities/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/export.py b/gama/utilities/export.py
index 8c92e03..760d4ac 100644
--- a/gama/utilities/export.py
+++ b/gama/utilities/export.py
@@ -11,7 +11,14 @@ def transformers_to_str(transformers: List[TransformerMixin]) -> List[str]:
     for transformer in copies:
         if hasattr(transformer, "mapping"):
             transformer.mapping = None
-    return list(map(str, copies))
+    # not `str`, because scikit-learn abbreviates e.g. a long list of columns.
+    return [
+        "{}({})".format(
+            transformer.__class__.__name__,
+            ", ".join(f"{k}={v!r}" for k, v in transformer.get_params().items()),
+        )
+        for transformer in copies
+    ]
 
 
 def format_import(o: object) -> str:
-- 
2.43.0


From 25b124a91110971a5f1324a1e44d608732c51aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 44/65] fix: detect worker processes that died without opening
 files for it

A timeout may strike while psutil has a file open.
---
 gama/utilities/generic/async_evaluator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index f0ef5f7..e026614 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -313,13 +313,11 @@ class AsyncEvaluator:
             memory_log.write(f"{timestamp},{mem_str}\n")
 
     def _get_memory_usage(self):
+        # A dead child process lingers as zombie until we ask for it.
+        multiprocessing.active_children()
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
-                if process.status() == psutil.STATUS_ZOMBIE:
-                    # A dead child process lingers as zombie until we `wait` for it.
-                    process.wait(timeout=60)
-                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
-- 
2.43.0


From 9676b1161412f735cda8043a01dd3c8427806c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:44 +0000
Subject: [PATCH 45/65] fix: allow data without column names to have one hot
 encoded features

Encoded columns are named by str, scikit-learn refuses a mix of int and str names,
so that every evaluation on e.g. a numpy array with such a column failed.
---
 gama/data_formatting.py | 8 ++++++++
 gama/gama.py            | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 8889ce0..65d55ed 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -33,6 +33,13 @@ def numpy_to_dataframe(x: np.ndarray) -> pd.DataFrame:
     return x
 
 
+def with_string_names(x: pd.DataFrame) -> pd.DataFrame:
+    """Name columns by `str`, scikit-learn does not allow a mix with encoded ones."""
+    if all(isinstance(column, str) for column in x.columns):
+        return x
+    return x.set_axis([str(column) for column in x.columns], axis=1)
+
+
 def format_y(
     y: Union[pd.DataFrame, pd.Series, np.ndarray], y_type: Type = pd.Series
 ) -> Union[pd.DataFrame, pd.Series]:
@@ -102,6 +109,7 @@ def format_x_y(
 
     if isinstance(x, np.ndarray):
         x = numpy_to_dataframe(x)
+    x = with_string_names(x)
     if not isinstance(y, y_type):
         y = format_y(y, y_type)
 
diff --git a/gama/gama.py b/gama/gama.py
index 798e289..0d5f125 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -37,7 +37,7 @@ from gama.utilities.metrics import scoring_to_metric
 
 from gama.__version__ import __version__
 from gama.data_loading import X_y_from_file
-from gama.data_formatting import format_x_y
+from gama.data_formatting import format_x_y, with_string_names
 from gama.search_methods.async_ea import AsyncEA
 from gama.utilities.generic.timekeeper import TimeKeeper
 from gama.logging.utility_functions import register_file_log, register_stream_log
@@ -369,6 +369,8 @@ class Gama(ABC):
     ) -> pd.DataFrame:
         if isinstance(x, np.ndarray):
             x = self._np_to_matching_dataframe(x)
+        if isinstance(x, pd.DataFrame):
+            x = with_string_names(x)
         if self._basic_encoding_pipeline:
             x = self._basic_encoding_pipeline.transform(x)
         return x
-- 
2.43.0


From 9406e49aa04d0afa06deb17e8559b3ca9ce328f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:39 +0000
Subject: [PATCH 46/65] fix: create a usable ensemble if no time is left after
 selecting its models

Ensemble.fit refuses a timeout that is not positive. The error was logged as warning
and the resulting model raised an error on every prediction.
---
 gama/postprocessing/ensemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 0e5d3fc..59c7f06 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -539,9 +539,9 @@ def build_fit_ensemble(
             ensemble.expand_ensemble(remainder)
 
         build_time = time.time() - start_build
-        timeout -= build_time
-        log.info(f"Ensemble build took {build_time}s. Fit with timeout {timeout}s.")
-        ensemble.fit(x, y, timeout)
+        log.info(f"Ensemble build took {build_time}s.")
+        # The models are already fit, an ensemble without them can't make predictions.
+        ensemble.fit(x, y)
     except Exception as e:
         log.warning(f"Error during auto ensemble: {e}", exc_info=True)
 
-- 
2.43.0


From aafd2e059ed4592c4a325e24ba824fc1e01d6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:14 +0000
Subject: [PATCH 47/65] fix: respect max_eval_time in asynchronous successive
 halving

ASHA passed a timeout of its own, of 10 to 610 seconds, to each evaluation.
---
 gama/search_methods/asha.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 35eac85..f8f9b64 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -173,13 +173,11 @@ def asha(
 
             def start_new_job():
                 individual, rung = get_job()
-                time_penalty = rung_resources[rung] / max(rung_resources.values())
                 async_.submit(
                     evaluate,
                     individual,
                     rung,
                     subsample=rung_resources[rung],
-                    timeout=(10 + (time_penalty * 600)),
                 )
 
             for _ in range(8):
-- 
2.43.0


From 3cf8ce635055e62f115280bf3ff82d94655ae431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:14 +0000
Subject: [PATCH 48/65] fix: use all training data if a subsample exceeds the
 size of the training fold

A subsample smaller than the data but not smaller than the training folds raised an
error, so that e.g. every evaluation on such a rung of ASHA failed.
---
 gama/genetic_programming/compilers/scikitlearn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 82b02e7..877b165 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -98,6 +98,9 @@ def evaluate_pipeline(
                 # This allows for performance comparisons across subsample levels.
                 new_splits = []
                 for train, test in splitter.split(x, y_train):
+                    if isinstance(subsample, int) and subsample >= len(train):
+                        new_splits.append((train, test))
+                        continue
                     if is_classification:
                         sampler = StratifiedShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
-- 
2.43.0


From ae77edad60e2c01b74d785c47b307c62915118b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:06 +0000
Subject: [PATCH 49/65] fix: match rows of x and y by position if their indices
 differ

---
 gama/data_formatting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 65d55ed..3c97d4c 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -112,6 +112,9 @@ def format_x_y(
     x = with_string_names(x)
     if not isinstance(y, y_type):
         y = format_y(y, y_type)
+    if len(x) == len(y) and not x.index.equals(y.index):
+        # Rows match by position, but e.g. the TargetEncoder compares indices.
+        y = y.set_axis(x.index)
 
     if remove_unlabeled:
         x, y = remove_unlabeled_rows(x, y)
-- 
2.43.0


From d5cbb10e566dc14b07ec1955639b485b5ed906b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:06 +0000
Subject: [PATCH 50/65] fix: merge shared hyperparameters that are ranges or
 arrays

---
 gama/configuration/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index b4b2672..bf77731 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -117,8 +117,8 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
             continue
 
         hparams = merged[algorithm] = copy.copy(merged[algorithm])
-        if isinstance(hparams, list) and isinstance(hparams2, list):
-            merged[algorithm] = list(set(hparams + hparams2))
+        if isinstance(algorithm, str):
+            merged[algorithm] = list(set(list(hparams) + list(hparams2)))
             continue  # Here the algorithm is actually a shared hyperparameter.
 
         for hyperparameter, values in hparams2.items():
-- 
2.43.0


From 6b96907daa1ab3d656f3efadcaa8f955b166078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:44 +0000
Subject: [PATCH 51/65] fix: report evaluations past the deadline, so a
 swallowed timeout is noticed

---
 gama/genetic_programming/compilers/scikitlearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 877b165..be7561f 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -201,7 +201,8 @@ def evaluate_individual(
 
     if deadline is not None:
         time_to_deadline = deadline - time.time()
-        timeout = min(timeout, time_to_deadline)
+        # Past the deadline, an evaluation should still be reported (as timed out).
+        timeout = max(min(timeout, time_to_deadline), 0.001)
 
     with Stopwatch() as wall_time, Stopwatch(time.process_time) as process_time:
         evaluation = evaluate_pipeline(individual.pipeline, timeout=timeout, **kwargs)
-- 
2.43.0


From b0379c510294ed4a2ff2725b0a23e29a5917f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 52/65] fix: promote the same pipelines in ASHA for the same
 seed, also if scores are equal

---
 gama/search_methods/asha.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index f8f9b64..9662bc8 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -157,7 +157,9 @@ def asha(
             n_to_promote = math.floor(len(individuals) / reduction_factor)
             if n_to_promote - len(promoted_individuals[rung]) > 0:
                 # Problem: equal loss falls back on comparison of individual
-                not_promoted = set(individuals) - set(promoted_individuals[rung])
+                not_promoted = [
+                    i for i in individuals if i not in promoted_individuals[rung]
+                ]
                 if len(not_promoted) > 0:
                     to_promote = max(not_promoted, key=lambda i: i[0])
                     promoted_individuals[rung].append(to_promote)
-- 
2.43.0


From e384176d5fe58c4d4a4fe25e13133e00db133cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 53/65] fix: merge configurations to the same order of values
 in every process

---
 gama/configuration/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index bf77731..c03f772 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -118,7 +118,7 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
 
         hparams = merged[algorithm] = copy.copy(merged[algorithm])
         if isinstance(algorithm, str):
-            merged[algorithm] = list(set(list(hparams) + list(hparams2)))
+            merged[algorithm] = list(dict.fromkeys([*hparams, *hparams2]))
             continue  # Here the algorithm is actually a shared hyperparameter.
 
         for hyperparameter, values in hparams2.items():
@@ -131,7 +131,7 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
                 hparams[hyperparameter] = {**values1, **values}
             elif isinstance(values1, type(values)):
                 # Both are ranges, arrays or lists.
-                hparams[hyperparameter] = list(set(list(values1) + list(values)))
+                hparams[hyperparameter] = list(dict.fromkeys([*values1, *values]))
             else:
                 raise TypeError(
                     f"Could not merge values of {algorithm}.{hyperparameter}:"
-- 
2.43.0


From c34fd0148fc9ca5e34fbc883adc057c94cffa3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 54/65] fix: split the header of a csv file as the file itself,
 also if names are quoted

---
 gama/data_loading.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 8e8d6ec..e4ec788 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -27,13 +27,13 @@ def load_csv_header(file_path: str, **kwargs) -> List[str]:
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
 
-    with open(file_path, "r") as csv_file:
-        first_line = csv_file.readline().rstrip("\n")
+    with open(file_path, "r", newline="") as csv_file:
+        first_row = next(csv.reader(csv_file, delimiter=sep))
 
     if has_header:
-        return first_line.split(sep)
+        return first_row
     else:
-        return [str(i) for i, _ in enumerate(first_line.split(sep))]
+        return [str(i) for i, _ in enumerate(first_row)]
 
 
 def csv_to_pandas(file_path: str, **kwargs) -> pd.DataFrame:
-- 
2.43.0


From 15d9e73067a1e0f1c50e990f299403e1ffc36f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 55/65] fix: name the columns of a csv file without header as
 its metadata does

---
 gama/data_loading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index e4ec788..467aeb8 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -60,6 +60,8 @@ def csv_to_pandas(file_path: str, **kwargs) -> pd.DataFrame:
         kwargs["header"] = kwargs.get("header", 0 if has_header else None)
 
     df = pd.read_csv(file_path, **kwargs).infer_objects()
+    # Without header columns are numbered, but still named by str (`load_csv_header`).
+    df.columns = df.columns.astype(str)
     # Since CSV files do not have type annotation, we must infer their type to
     # know which preprocessing steps to apply.
     infer_categoricals_inplace(df)
-- 
2.43.0


From 076d61e26e43ca26ba3fd83b04b1385b9982c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:28 +0000
Subject: [PATCH 56/65] fix: load the header of ARFF files with tabs, single
 quotes or without data

---
 gama/data_loading.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 467aeb8..cb0ac84 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -1,6 +1,7 @@
 """ This module contains functions for loading data. """
 from collections import OrderedDict
 import csv
+import re
 from typing import Tuple, Optional, Dict, List
 
 import arff
@@ -181,20 +182,18 @@ def load_feature_metadata_from_file(file_path: str) -> Dict[str, str]:
 def load_feature_metadata_from_arff(file_path: str) -> Dict[str, str]:
     """Load the header of the ARFF file and return the type of each attribute."""
     data_header = "@data"
-    attribute_indicator = "@attribute"
+    # arff separates by whitespace, but allows spaces in
+    # feature name (name must be quoted) and feature type (if nominal).
+    attribute = re.compile(
+        r"""@attribute\s+("[^"]*"|'[^']*'|\S+)\s+(.*\S)""", flags=re.IGNORECASE
+    )
     attributes = OrderedDict()
     with open(file_path, "r") as fh:
-        line = fh.readline()
-        while not line.lower().startswith(data_header):
-            if line.lower().startswith(attribute_indicator):
-                # arff uses a space separator, but allows spaces in
-                # feature name (name must be quoted) and feature type (if nominal).
-                indicator, name_and_type = line.split(" ", 1)
-                if name_and_type.startswith('"'):
-                    name, data_type = name_and_type[1:].split('" ', 1)
-                    name = name
-                else:
-                    name, data_type = name_and_type.split(" ", 1)
-                attributes[name] = data_type
-            line = fh.readline()[:-1]  # remove newline character
+        for line in fh:
+            if line.lower().startswith(data_header):
+                break
+            match = attribute.match(line)
+            if match:
+                name, data_type = match.groups()
+                attributes[name.strip("\"'")] = data_type
     return attributes
-- 
2.43.0


From b62b744c512e9c8b46e28a760ca3f4bc5bf41a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:20 +0000
Subject: [PATCH 57/65] fix: use all samples in ASHA if maximum_resource
 exceeds the size of the data

---
 gama/search_methods/asha.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 9662bc8..21947e3 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -51,6 +51,7 @@ class AsynchronousSuccessiveHalving(BaseSearch):
             maximum_resource=(maximum_resource, 1.0),
             minimum_early_stopping_rate=(minimum_early_stopping_rate, 0),
         )
+        self._set_maximum_resource = maximum_resource
         self.output = []
 
         self.logger = partial(
@@ -64,14 +65,18 @@ class AsynchronousSuccessiveHalving(BaseSearch):
     def dynamic_defaults(
         self, x: pd.DataFrame, y: pd.DataFrame, time_limit: float
     ) -> None:
-        set_max, default = self._hyperparameters["maximum_resource"]
+        # The dataset of an earlier search may have been smaller.
+        set_max = self._set_maximum_resource
+        _, default = self._hyperparameters["maximum_resource"]
         if set_max is not None and len(y) < set_max:
             # todo: take into account the evaluation procedure as well.
             logging.warning(
-                f"`maximum_resource` was set to {set_max}, but the dataset only"
-                f"contains {len(y)} samples. Reverting to default (1.0) instead."
+                f"`maximum_resource` was set to {set_max}, but the dataset only "
+                f"contains {len(y)} samples. Using all samples instead."
             )
-            self._hyperparameters["maximum_resource"] = (None, default)
+            # As a number of rows: it must be of the same type as `minimum_resource`.
+            set_max = len(y)
+        self._hyperparameters["maximum_resource"] = (set_max, default)
 
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
-- 
2.43.0


From fc7981ebb96b11f25dd730834ec54ef84581dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:20 +0000
Subject: [PATCH 58/65] fix: store predictions of the kind the first metric
 needs

---
 gama/genetic_programming/compilers/scikitlearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index be7561f..3619776 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -130,7 +130,8 @@ def evaluate_pipeline(
                 splitter if isinstance(splitter, list) else splitter.split(x, y_train)
             )
             for estimator, (_, test) in zip(estimators, splitter):
-                if any(m.requires_probabilities for m in metrics):
+                # Post-processing uses the predictions with the first metric.
+                if metrics[0].requires_probabilities:
                     fold_pred = estimator.predict_proba(x.iloc[test, :])
                 else:
                     fold_pred = estimator.predict(x.iloc[test, :])
-- 
2.43.0


From b4e274ec60ecebd2978ca33d0e27e193fd6ccc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:35 +0000
Subject: [PATCH 59/65] fix: evaluate on a subsample of nearly all rows of a
 training fold

---
 .../compilers/scikitlearn.py                  | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 3619776..2ad13ba 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -6,13 +6,9 @@ from typing import Callable, Tuple, Optional, Sequence
 
 import stopit
 from sklearn.base import TransformerMixin, is_classifier
-from sklearn.model_selection import (
-    ShuffleSplit,
-    cross_validate,
-    check_cv,
-    StratifiedShuffleSplit,
-)
+from sklearn.model_selection import cross_validate, check_cv
 from sklearn.pipeline import Pipeline
+from sklearn.utils import resample
 
 from gama.utilities.evaluation_library import Evaluation
 from gama.utilities.generic.stopwatch import Stopwatch
@@ -101,17 +97,20 @@ def evaluate_pipeline(
                     if isinstance(subsample, int) and subsample >= len(train):
                         new_splits.append((train, test))
                         continue
-                    if is_classification:
-                        sampler = StratifiedShuffleSplit(
-                            n_splits=1, train_size=subsample, random_state=0
-                        )
+                    if isinstance(subsample, float):
+                        n_samples = int(subsample * len(train))
                     else:
-                        sampler = ShuffleSplit(
-                            n_splits=1, train_size=subsample, random_state=0
-                        )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
-                    subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((train[subsample_idx], test))
+                        n_samples = subsample
+                    # Unlike a StratifiedShuffleSplit, this may leave out any number
+                    # of rows, also if there are fewer of them than there are classes.
+                    subset = resample(
+                        train,
+                        replace=False,
+                        n_samples=n_samples,
+                        random_state=0,
+                        stratify=y_train.iloc[train] if is_classification else None,
+                    )
+                    new_splits.append((subset, test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From 85b4c433472c60a1f3e038c3365640644566c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:35 +0000
Subject: [PATCH 60/65] fix: do not nest the setup of the evaluator with every
 fit

---
 gama/gama.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 0d5f125..b9e910e 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -66,6 +66,8 @@ from gama.utilities.metrics import Metric
 # Avoid stopit from logging warnings every time a pipeline evaluation times out
 logging.getLogger("stopit").setLevel(logging.ERROR)
 log = logging.getLogger(__name__)
+# Each search sets the arguments of the original, it must not nest the previous ones.
+_async_evaluator_init = AsyncEvaluator.__init__
 
 
 STR_NO_OPTIMAL_PIPELINE = """Gama did not yet establish an optimal pipeline.
@@ -667,7 +669,7 @@ class Gama(ABC):
             AsyncEvaluator,
             "__init__",
             partialmethod(
-                AsyncEvaluator.__init__,
+                _async_evaluator_init,
                 n_workers=self._n_jobs,
                 memory_limit_mb=self._max_memory_mb,
                 logfile=os.path.join(self.output_directory, "memory.log"),
-- 
2.43.0


From f9b10fec14e43fd9f510ccd8836cdcd2122f3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 61/65] fix: leave operators out for the size of the data in
 that fit only

With an ensemble, fit removed PolynomialFeatures (more than 50 columns) and kNN
(large data) from the search space for good, so a later fit on small data no
longer considered them. When nothing else was left, no pipeline could be created.
---
 gama/gama.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index b9e910e..f5eb396 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -309,6 +309,8 @@ class Gama(ABC):
         self.evaluation_completed(e.log_evaluation)
 
         self._pset, parameter_checks = pset_from_config(search_space)
+        # `fit` may exclude operators based on the data, but only for that one fit.
+        self._all_primitives = dict(self._pset)
 
         if DATA_TERMINAL not in self._pset:
             if max_pipeline_length is None:
@@ -575,6 +577,7 @@ class Gama(ABC):
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
 
+            self._pset.update(self._all_primitives)
             if store_pipelines and self._x.shape[0] * self._x.shape[1] > 6_000_000:
                 # if m > 0, we are storing models for each evaluation. For this size
                 # KNN will create models of about 76Mb in size, which is too big, so
@@ -586,17 +589,17 @@ class Gama(ABC):
                     p
                     for p in self._pset["prediction"]
                     if p.identifier not in [KNeighborsClassifier, KNeighborsRegressor]
-                ]
+                ] or self._all_primitives["prediction"]
 
             if store_pipelines and self._x.shape[1] > 50:
                 log.info("Data has too many features to include PolynomialFeatures")
                 from sklearn.preprocessing import PolynomialFeatures
 
-                self._pset["data"] = [
+                self._pset[DATA_TERMINAL] = [
                     p
-                    for p in self._pset["data"]
+                    for p in self._pset[DATA_TERMINAL]
                     if p.identifier not in [PolynomialFeatures]
-                ]
+                ] or self._all_primitives.get(DATA_TERMINAL, [])
 
         if self._time_manager.total_time_remaining < 0:
             pre_time = self._time_manager.activities[-1].stopwatch.elapsed_time
-- 
2.43.0


From b56985e5a2a0c4d21ea994de2d90c51b5578a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:47 +0000
Subject: [PATCH 62/65] fix: evaluate pipelines of an earlier fit with the
 steps for the data of this one

The pipelines a fit starts from kept the preprocessing steps of the data of the
fit they were created in. If the data differs, e.g. in which columns need target
encoding, all of them and all their offspring failed.
---
 gama/gama.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index f5eb396..6473f5b 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -657,6 +657,9 @@ class Gama(ABC):
             pop = self._final_pop
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
+        for individual in pop:
+            # It may be from a fit on other data, which needs other steps before it.
+            individual._to_pipeline = self._operator_set._safe_compile
 
         deadline = time.time() + timeout
 
-- 
2.43.0


From 716f1b2c6fadedfcadac5bfd57ef7f237b8635bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:37 +0000
Subject: [PATCH 63/65] fix: search with ASHA if its rungs do not fit the data

With less data than minimum_resource, or with minimum_early_stopping_rate higher
than the last rung, there were no rungs: the search ended without any evaluation,
and fit with an IndexError.
---
 gama/search_methods/asha.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 21947e3..e724ae2 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -137,6 +137,8 @@ def asha(
     max_rung = math.ceil(
         round(math.log(maximum_resource / minimum_resource, reduction_factor), 9)
     )
+    # There may be less data than `minimum_resource`, or fewer rungs than to be skipped.
+    max_rung = max(max_rung, minimum_early_stopping_rate)
     rungs = range(minimum_early_stopping_rate, max_rung + 1)
     start_candidates = list(start_candidates)  # the list of the caller is not ours
     rung_resources = {
-- 
2.43.0


From c0fab012c6e7f62b3730a6baffb3c3fa42656c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:47 +0000
Subject: [PATCH 64/65] fix: default to one job on a machine with one processor

Half of one processor was rounded to zero jobs, which is refused.
---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 6473f5b..621e143 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -244,7 +244,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
-- 
2.43.0


From 55e02a5807432e37712cce930893e0cc78d825a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:27 +0000
Subject: [PATCH 65/65] fix: score average_precision with probabilities, as
 roc_auc

Stored predictions, ensembles and `score` used predicted labels instead.
---
 gama/gama.py              | 3 +++
 gama/utilities/metrics.py | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 621e143..a6cfc43 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -456,6 +456,9 @@ class Gama(ABC):
         if metric.name == "roc_auc":
             # For binary problems, the probability of the 'positive' class is expected.
             return metric.score(y, predictions[:, 1])
+        if metric.name == "average_precision":
+            positive_label = self._label_encoder.classes_[1]
+            return metric.score(y, predictions[:, 1], pos_label=positive_label)
         # Not all classes need to be present in `y`.
         return metric.score(y, predictions, labels=self._label_encoder.classes_)
 
diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 9474525..66e9891 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -42,9 +42,9 @@ class Metric:
             )
         self.scorer = scorer
         self.name = reversed_scorers[repr(scorer)]
-        self.requires_probabilities = (
-            isinstance(scorer, _ProbaScorer) or self.name == "roc_auc"
-        )
+        self.requires_probabilities = isinstance(
+            scorer, _ProbaScorer
+        ) or self.name in ("roc_auc", "average_precision")
 
         if self.name in classification_metrics:
             self.task_type = MetricType.CLASSIFICATION
-- 
2.43.0

