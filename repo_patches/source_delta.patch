From 6085c7b5f07bf8b213fb4620ceb32f2b9fff0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 01/27] fix: CustomPrior.perturb_value without a birth had no
 perturb_std

---
 src/bayesbay/prior/_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 57ef5ad..7a73295 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -969,6 +969,8 @@ class CustomPrior(Prior):
         """
         if is_birth:
             perturb_std = self.get_perturb_std_birth(position)
+        else:
+            perturb_std = self.get_perturb_std(position)
         random_deviate = random.normalvariate(0, perturb_std)
         new_value = value + random_deviate
         ratio = self.log_prior(new_value, position) - self.log_prior(value, position)
-- 
2.43.0


From d1272b3bf5e79ef28e9ec6b0b84f6f978b4e9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 02/27] fix: ParamPerturbation left the attribute view of the
 proposed state stale

---
 src/bayesbay/perturbations/_param_values.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/perturbations/_param_values.py b/src/bayesbay/perturbations/_param_values.py
index 94d3502..4cea965 100644
--- a/src/bayesbay/perturbations/_param_values.py
+++ b/src/bayesbay/perturbations/_param_values.py
@@ -80,7 +80,8 @@ class ParamPerturbation(Perturbation, ParamSpaceMixin):
                 new_param_values[param.name][idx] = new_value
         # structure new param value(s) into new state
         new_ps_state = ps_state.copy()
-        new_ps_state.param_values.update(new_param_values)
+        for name, values in new_param_values.items():
+            new_ps_state.set_param_values(name, values)
         return new_ps_state, log_prob_ratio
 
     @property
-- 
2.43.0


From 2c2f68dc3cf052d90207c6c1385c89b90d2e0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 03/27] fix: birth from neighbour crashed on a nested
 ParameterSpace

---
 src/bayesbay/discretization/_discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/discretization/_discretization.py b/src/bayesbay/discretization/_discretization.py
index 4a3caec..89aec4e 100644
--- a/src/bayesbay/discretization/_discretization.py
+++ b/src/bayesbay/discretization/_discretization.py
@@ -367,7 +367,7 @@ class Discretization(Prior, ParameterSpace):
                 ) ** 2 / (2 * _perturb_std**2)
                 log_prob_ratio += log_prior_ratio + log_proposal_ratio
             elif isinstance(param, ParameterSpace):     # birth from prior
-                new_value, _ = param.sample()
+                new_value = param.sample()
                 new_born_values[param_name] = new_value
                 # log_prob_ratio += 0
             else:
-- 
2.43.0


From 657657db7eba6fa26c23a95b4e2570c42b7d3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 04/27] fix: chains setter rejected lists of chains and
 accepted anything else

---
 src/bayesbay/_bayes_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index db1fa1b..186a8ae 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -194,7 +194,7 @@ class BaseBayesianInversion:
             :class:`BaseMarkovChain`
         """
         if not isinstance(updated_chains, list) or \
-            all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
+            not all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
                 raise TypeError("make sure the `updated_chains` is a list of chains")
         self._chains = updated_chains
         self.n_chains = len(updated_chains)
-- 
2.43.0


From f4d6727dafca22c56ed875a4d8c854664e627a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 05/27] fix: get_results crashed when the chain states are
 neither State nor dict

---
 src/bayesbay/_bayes_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 186a8ae..4ebe9ff 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -328,7 +328,7 @@ class BaseBayesianInversion:
                     results.extend(chain.saved_states)
                 else:
                     results.append(chain.saved_states)
-        return dict(results)
+        return dict(results) if isinstance(results, dict) else results
     
     def _init_repr_args(self):
         self._repr_args = {
-- 
2.43.0


From 74a2321748e92ebdfa8bcf4a7c69849723a828b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 06/27] fix: saving a dict state crashed looking for its dpred
 cache

---
 src/bayesbay/_markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index 1dedc81..b25d82a 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -123,7 +123,7 @@ class BaseMarkovChain:
                 ):
                     continue
                 self.saved_states[k].append(v)
-            if self.save_dpred:
+            if self.save_dpred and isinstance(self.current_state, State):
                 for k, v in self.current_state.cache.items():
                     if "dpred" in k:
                         self.saved_states[k].append(v)
-- 
2.43.0


From 04a8f552e4493fbae02e9d24b2fdfb5e7b3ac149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 07/27] fix: advance_chain crashed with its default
 begin/end_iteration of None

---
 src/bayesbay/_markov_chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index b25d82a..14bfd07 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -285,9 +285,11 @@ class BaseMarkovChain:
             else:
                 self.save_current_iteration = not (i - burnin_iterations) % save_every
 
-            begin_iteration(self)
+            if begin_iteration is not None:
+                begin_iteration(self)
             self._next_iteration()
-            end_iteration(self)
+            if end_iteration is not None:
+                end_iteration(self)
             if verbose and not i % print_every:
                 self.print_statistics()
 
-- 
2.43.0


From 56958034767de6c3befbcf1cee7789936fcae2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 08/27] fix: functions added by add_on_end_advance_chain were
 never called

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index b60f6b1..2aa3c6e 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -234,7 +234,7 @@ class Sampler(ABC):
             )
         else:
             self._chains = [func(chain) for chain in self.chains]
-        self.on_end_advance_chain()
+        self.end_advance_chain()
         return self.chains
 
 
-- 
2.43.0


From 32d4abc96ab06be05f074ccaf1cf16d695f163fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 09/27] fix: SimulatedAnnealing left chains already past the
 burn-in at the starting temperature

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 2aa3c6e..69578d6 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -400,7 +400,7 @@ class SimulatedAnnealing(Sampler):
             chain.temperature = self.temperature_start * math.exp(
                 -self.cooling_rate * iteration
             )
-        elif iteration == self.burnin_iterations:
+        else:
             chain.temperature = 1
 
     def on_end_iteration(self, chain: BaseMarkovChain):
-- 
2.43.0


From 3259d2c7555e754602f1aa8e82f935af66bd2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 10/27] fix: parallel-tempering swaps tempered the likelihood
 ratio a second time

---
 src/bayesbay/samplers/_samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 69578d6..3762f79 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -332,7 +332,9 @@ class ParallelTempering(Sampler):
         for i in range(len(self.chains)):
             chain1, chain2 = np.random.choice(self.chains, 2, replace=False)
             T1, T2 = chain1.temperature, chain2.temperature
-            log_like_ratio = chain1._log_likelihood_ratio(chain2.current_state)
+            log_like_ratio = chain1.log_likelihood.log_likelihood_ratio(
+                chain1.current_state, chain2.current_state
+            )
             prob = (1 / T1 - 1 / T2) * log_like_ratio
             if prob > math.log(random.random()):
                 chain1.temperature = T2
-- 
2.43.0


From d6d754f8b184043ea8d0d7a6c00e45a31015c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 11/27] fix: ParallelTempering saved samples during the burn-in

---
 src/bayesbay/samplers/_samplers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 3762f79..2e21c5b 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -351,12 +351,9 @@ class ParallelTempering(Sampler):
         while True:
             iteration = self.chains[0].statistics["n_proposed_models_total"]
             n_it = min(self._swap_every, n_iterations - iteration)
-            burnin_it = max(
-                0, min(self._swap_every, burnin_iterations - iteration)
-            )
             self.advance_chain(
                 n_iterations=n_it,
-                burnin_iterations=burnin_it,
+                burnin_iterations=burnin_iterations,
                 save_every=save_every,
                 verbose=verbose,
                 print_every=print_every,
-- 
2.43.0


From 37341176cde1992d387ed7fcc8880659d52aa1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 12/27] fix: ParallelTempering did not advance chains that
 already had n_iterations

---
 src/bayesbay/samplers/_samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 2e21c5b..9ba31be 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -348,6 +348,7 @@ class ParallelTempering(Sampler):
         verbose=True,
         print_every=100,
     ) -> List[BaseMarkovChain]:
+        n_iterations += self.chains[0].statistics["n_proposed_models_total"]
         while True:
             iteration = self.chains[0].statistics["n_proposed_models_total"]
             n_it = min(self._swap_every, n_iterations - iteration)
-- 
2.43.0


From 0c6abc2d6a6ae7621f654ca8c77aa68a43d07f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 13/27] fix: ParallelTempering crashed with no chain left for
 the temperature ladder

---
 src/bayesbay/samplers/_samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index 9ba31be..cad0bdb 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -314,8 +314,7 @@ class ParallelTempering(Sampler):
         temperatures = np.ones(
             max(2, int(n_chains * self._chains_with_unit_tempeature)) - 1
         )
-        if n_chains - temperatures.size > 0:
-            size = n_chains - temperatures.size
+        size = max(0, n_chains - temperatures.size)
         temperatures = np.concatenate(
             (temperatures, np.geomspace(1, self._temperature_max, size))
         )
@@ -329,6 +328,8 @@ class ParallelTempering(Sampler):
         pass
 
     def on_end_advance_chain(self):
+        if len(self.chains) < 2:
+            return
         for i in range(len(self.chains)):
             chain1, chain2 = np.random.choice(self.chains, 2, replace=False)
             T1, T2 = chain1.temperature, chain2.temperature
-- 
2.43.0


From d3f95aed9f6a75cdfef51cbf4dfd1d7fd6c3454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 14/27] fix: forward functions added after initialization were
 not preprocessed

---
 src/bayesbay/likelihood/_log_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index 2c32046..180ab61 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -194,7 +194,7 @@ class LogLikelihood:
             for func in fwd_functions:
                 if not isinstance(func, (Callable, tuple)):
                     raise TypeError("`fwd_functions` should be a Callable/tuple or a list of Callables/tuples")
-            self.fwd_functions.extend(fwd_functions)
+            self.fwd_functions.extend([_preprocess_func(f) for f in fwd_functions])
         
         self._check_duplicate_target_names()
         self._init_perturbation_funcs()
@@ -274,7 +274,7 @@ class LogLikelihood:
             _targets = self.targets
             assert len(_fwd_functions) == len(_targets)
             self._targets = _targets
-            self._fwd_functions = [_preprocess_func(func) for func in _fwd_functions]
+            self._fwd_functions = _fwd_functions
             self._log_likelihood_ratio = self._log_likelihood_ratio_from_targets
         elif self.log_like_ratio_func:
             self.log_like_ratio_func = _preprocess_func(self.log_like_ratio_func)
-- 
2.43.0


From d2c0c258b75f3468f80b9bc2d37e2c31941f9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 15/27] fix: targets added after a parallel run never reached
 the chains

---
 src/bayesbay/_bayes_inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 4ebe9ff..87474bd 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -468,6 +468,8 @@ class BayesianInversion(BaseBayesianInversion):
         self.perturbation_funcs, self.perturbation_weights = \
             self._init_perturbation_funcs()
         for chain in self.chains:
+            # chains that ran in other processes hold a copy of the log likelihood
+            chain.log_likelihood = self.log_likelihood
             chain.set_perturbation_funcs(
                 self.perturbation_funcs, self.perturbation_weights
             )
-- 
2.43.0


From 028d45636bd83671dbeee41b2473246999efa012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 16/27] fix: ParameterSpace.log_prior crashed on a nested
 ParameterSpace

---
 src/bayesbay/parameterization/_parameter_space.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index 7ff65ce..3190672 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -190,7 +190,10 @@ class ParameterSpace:
         joint_log_prior = 0
         for param_name, param in self.parameters.items():
             param_values = param_space_state[param_name]
-            all_log_priors = [param.log_prior(v, None) for v in param_values]
+            if isinstance(param, ParameterSpace):
+                all_log_priors = [param.log_prior(v) for v in param_values]
+            else:
+                all_log_priors = [param.log_prior(v, None) for v in param_values]
             joint_log_prior += sum(all_log_priors)
         return joint_log_prior
 
-- 
2.43.0


From 311d74213ab981c832e437cf68f3292518e78e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 17/27] fix: position-dependent Gaussian and Laplace priors
 could not be initialized in 2D

---
 src/bayesbay/prior/_prior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 7a73295..c8307f5 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -590,8 +590,8 @@ class GaussianPrior(Prior):
             chosen according to the normal distribution defined
             by :attr:`mean` and :attr:`std` at the given positions
         """
-        mean = self.get_mean(positions)
-        std = self.get_std(positions)
+        mean = np.array([self.get_mean(p) for p in positions])
+        std = np.array([self.get_std(p) for p in positions])
         values = np.random.normal(mean, std, len(positions))
         return values
 
@@ -788,8 +788,8 @@ class LaplacePrior(Prior):
             chosen according to the Laplace distribution defined
             by :attr:`mean` and :attr:`scale` at the given positions
         """
-        mean = self.get_mean(positions)
-        scale = self.get_scale(positions)
+        mean = np.array([self.get_mean(p) for p in positions])
+        scale = np.array([self.get_scale(p) for p in positions])
         values = np.random.laplace(mean, scale, len(positions))
         return values
     
-- 
2.43.0


From d595833c4b4f89145d91ab83ae4dea03473cb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 18/27] fix: CustomPrior.initialize returned one value per
 coordinate in 2D

---
 src/bayesbay/prior/_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index c8307f5..5e3afa2 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -920,7 +920,7 @@ class CustomPrior(Prior):
         return self._sample(position) 
     
     def initialize(self, positions: np.ndarray = None) -> np.ndarray:
-        result = np.empty_like(positions)
+        result = np.empty(len(positions))
         for i, position in enumerate(positions):
             result[i] = self._sample(position)
         return result
-- 
2.43.0


From a22704fb60400174dce6d0357567cb3b637e7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 19/27] fix: NoisePerturbation left the attribute view of the
 proposed state stale

---
 src/bayesbay/perturbations/_data_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index 732ebbe..af7d7c1 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -52,7 +52,8 @@ class NoisePerturbation(Perturbation):
             new_data_noise_state = self._perturb_target(target, old_data_noise_state)
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
-        new_state.param_values.update(new_data_noise_all)
+        for name, new_data_noise_state in new_data_noise_all.items():
+            new_state.set_param_values(name, new_data_noise_state)
         return new_state, 0
 
     def _perturb_target(
-- 
2.43.0


From f9c054ca3925d079eb3c279ee9cd759b3b1852d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 20/27] fix: redrawing noise proposals until in bounds biased
 the sampling near the bounds

---
 src/bayesbay/perturbations/_data_noise.py | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index af7d7c1..cb45fc3 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -1,5 +1,6 @@
 from numbers import Number
-from typing import Tuple, List
+from typing import Tuple, List, Union
+import math
 import random
 
 from .._state import State, DataNoiseState
@@ -28,8 +29,9 @@ class NoisePerturbation(Perturbation):
             \underbrace{\frac{q\left({\bf m} \mid {\bf m'}\right)}{q\left({\bf m'} \mid {\bf m}\right)}}_{\text{Proposal ratio}}
             \underbrace{\lvert \mathbf{J} \rvert}_{\begin{array}{c} \text{Jacobian} \\ \text{determinant} \end{array}},
 
-        which in this case equals zero since a uniform probability distribution is
-        inherently assumed for the noise properties.
+        which in this case equals one (zero in log) since a uniform probability
+        distribution is inherently assumed for the noise properties, or zero (-inf in
+        log) if the proposed noise properties are outside their allowed range.
 
         Parameters
         ----------
@@ -44,12 +46,14 @@ class NoisePerturbation(Perturbation):
             \frac{p({\bf m'})}{p({\bf m})}
             \frac{q\left({\bf m}
             \mid {\bf m'}\right)}{q\left({\bf m'} \mid {\bf m}\right)}
-            \lvert \mathbf{J} \rvert) = 0`
+            \lvert \mathbf{J} \rvert)`
         """
         new_data_noise_all = dict()
         for target in self.targets:
             old_data_noise_state = state[target.name]
             new_data_noise_state = self._perturb_target(target, old_data_noise_state)
+            if new_data_noise_state is None:  # outside the support of the prior
+                return state, -math.inf
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
         for name, new_data_noise_state in new_data_noise_all.items():
@@ -58,7 +62,7 @@ class NoisePerturbation(Perturbation):
 
     def _perturb_target(
         self, target: Target, data_noise_state: DataNoiseState
-    ) -> DataNoiseState:
+    ) -> Union[DataNoiseState, None]:
         to_be_perturbed = ["std"]
         if target.noise_is_correlated:
             to_be_perturbed.append("correlation")
@@ -68,12 +72,10 @@ class NoisePerturbation(Perturbation):
             vmax = getattr(target, f"{p}_max")
             perturb_std = getattr(target, f"{p}_perturb_std")
             old_value = getattr(data_noise_state, p)
-            while True:
-                random_deviate = random.normalvariate(0, perturb_std)
-                new_value = old_value + random_deviate
-                if new_value < vmin or new_value > vmax:
-                    continue
-                break
+            random_deviate = random.normalvariate(0, perturb_std)
+            new_value = old_value + random_deviate
+            if new_value < vmin or new_value > vmax:
+                return None
             new_values[p] = new_value
         return DataNoiseState(**new_values)
 
-- 
2.43.0


From d6185929362d4c280d73896dbb875fe96935d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 21/27] fix: redrawing Voronoi sites until in the domain biased
 the sampling near its boundary

---
 src/bayesbay/discretization/_voronoi.py | 53 ++++++++-----------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index c7a8467..d9a566d 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -192,19 +192,17 @@ class Voronoi(Discretization):
         Union[Number, np.ndarray]
             perturbed Voronoi site position
         """
-        while True:
-            if self.spatial_dimensions == 1:
-                random_deviate = random.normalvariate(0, self.perturb_std)
-                new_site = site + random_deviate
-                if new_site >= self.vmin and new_site <= self.vmax:
-                    return new_site
-            else:
-                random_deviate = np.random.normal(
-                    0, self.perturb_std, self.spatial_dimensions
-                )
-                new_site = site + random_deviate
-                if all((new_site >= self.vmin) & (new_site <= self.vmax)):
-                    return new_site
+        if self.spatial_dimensions == 1:
+            random_deviate = random.normalvariate(0, self.perturb_std)
+        else:
+            random_deviate = np.random.normal(
+                0, self.perturb_std, self.spatial_dimensions
+            )
+        return site + random_deviate
+
+    def _is_in_domain(self, site: Union[Number, np.ndarray]) -> bool:
+        """whether the given Voronoi site is within the discretization domain"""
+        return bool(np.all((site >= self.vmin) & (site <= self.vmax)))
 
     def perturb_value(
         self, old_ps_state: ParameterSpaceState, isite: int
@@ -234,6 +232,8 @@ class Voronoi(Discretization):
         old_sites = old_ps_state["discretization"]
         old_site = old_sites[isite]
         new_site = self._perturb_site(old_sites[isite])
+        if not self._is_in_domain(new_site):
+            return old_ps_state, -math.inf
         new_sites = old_sites.copy()
         new_sites[isite] = new_site
         if self.spatial_dimensions == 1:
@@ -1382,31 +1382,10 @@ class Voronoi2D(Voronoi):
         ps_state.save_to_cache("kdtree", kdtree)
         return ps_state
 
-    def _perturb_site(
-        self, site: Union[Number, np.ndarray]
-    ) -> Union[Number, np.ndarray]:
-        """perturbes a Voronoi  site
-
-        Parameters
-        ----------
-        site : Union[Number, np.ndarray]
-            Voronoi site position.
-
-        Returns
-        -------
-        Union[Number, np.ndarray]
-            perturbed Voronoi site position
-        """
+    def _is_in_domain(self, site: np.ndarray) -> bool:
         if self.polygon is None:
-            return super()._perturb_site(site)
-        while True:
-            random_deviate = np.random.normal(
-                0, self.perturb_std, self.spatial_dimensions
-            )
-            new_site = site + random_deviate
-            point = shapely.geometry.Point(new_site)
-            if self.polygon.contains(point):
-                return new_site
+            return super()._is_in_domain(site)
+        return self.polygon.contains(shapely.geometry.Point(site))
 
     def perturb_value(self, old_ps_state: ParameterSpaceState, isite: int):
         new_ps_state, log_prior_ratio = super().perturb_value(old_ps_state, isite)
-- 
2.43.0


From 7abeaa0c2255a9785d17c95ab1e65f316450540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 22/27] fix: newborn nested Voronoi2D states had no kdtree in
 cache

---
 src/bayesbay/discretization/_voronoi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index d9a566d..692d632 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -1376,6 +1376,12 @@ class Voronoi2D(Voronoi):
             return self._add_kdtree_to_ps_state(ps_state)
         return ps_state
 
+    def sample_discretization(self) -> ParameterSpaceState:
+        ps_state = super().sample_discretization()
+        if self.compute_kdtree:
+            return self._add_kdtree_to_ps_state(ps_state)
+        return ps_state
+
     def _add_kdtree_to_ps_state(self, ps_state: ParameterSpaceState):
         voronoi_sites = ps_state.get_param_values("discretization")
         kdtree = scipy.spatial.KDTree(voronoi_sites)
-- 
2.43.0


From 471160fac3faee0ffae918347e5b908c95d2c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 23/27] fix: adding forward functions without targets crashed
 when chains exist

---
 src/bayesbay/likelihood/_log_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index 180ab61..f08c22f 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -199,7 +199,7 @@ class LogLikelihood:
         self._check_duplicate_target_names()
         self._init_perturbation_funcs()
         for inversion in self._perturbation_funcs_observers:
-            inversion.update_log_likelihood_targets(targets)
+            inversion.update_log_likelihood_targets(targets or [])
 
     def log_likelihood_ratio(
         self,
-- 
2.43.0


From 6a9a06010f0bd940b980b7618db07130ec81ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 24/27] fix: Voronoi cell extents were wrong for one site and
 for unbounded cells

---
 src/bayesbay/_utils_1d.pyx | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index f4e8b97..a17a4e6 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -7,7 +7,7 @@ from libcpp.vector cimport vector
 from libcpp.utility cimport pair
 from libcpp.algorithm cimport sort
 from libc.stdlib cimport malloc, free
-from libc.math cimport fabs, INFINITY
+from libc.math cimport fabs
 import numpy as np
 cimport numpy as np
     
@@ -28,27 +28,28 @@ cpdef bool_cpp is_sorted(double[:] arr):
 @wraparound(False) 
 @cdivision(True)  
 def compute_voronoi1d_cell_extents(double[:] sites,
-                                   double lb=0, 
-                                   double ub=INFINITY,
+                                   lb=0, 
+                                   ub=np.inf,
                                    double fill_value=0):
+    # infinite bounds are told apart as Python floats: the C code is compiled with
+    # -ffast-math, which discards comparisons against infinity
+    cdef bool_cpp bounded_below = not lb == -np.inf
+    cdef bool_cpp bounded_above = not ub == np.inf
     cdef size_t size = sites.shape[0]
-    cdef int i, istart
-    cdef double d1, d2
+    cdef size_t i
+    cdef double d1 = lb if bounded_below else 0
+    cdef double d2
     cdef double[:] extent = np.zeros(size, dtype=np.double)
-    size = sites.shape[0]
-    extent = np.zeros(size, dtype=np.double)
-    if not lb == -INFINITY:
-        istart = 0
-        d1 = lb
-    else:
-        istart = 1
-        extent[0] = fill_value
-        d1 = (sites[0] + sites[1]) / 2.
-    for i in range(istart, size - 1):
+    for i in range(size - 1):
         d2 = (sites[i] + sites[i+1]) / 2.
         extent[i] = d2 - d1
         d1 = d2
-    extent[i+1] = ub - d2 if not ub==INFINITY else fill_value
+    if bounded_above:
+        extent[size-1] = <double>ub - d1
+    if not bounded_below:
+        extent[0] = fill_value
+    if not bounded_above:
+        extent[size-1] = fill_value
     return np.asarray(extent)
 
 
-- 
2.43.0


From 3142a57fee52f8b405eededb02ac6d8eea204948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 25/27] fix: inverse covariance wrote out of bounds for fewer
 than three data

---
 src/bayesbay/_utils_1d.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index a17a4e6..b89b653 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -201,14 +201,15 @@ cpdef inverse_covariance(double sigma, double r, size_t n):
     cdef double factor = 1 / (sigma**2 * (1 - r**2))
     cdef double[:, ::1] matrix = np.zeros((n, n), dtype=np.double)
     
-    for i in range(1, n-1):
+    if n == 1:
+        matrix[0, 0] = 1 / sigma**2
+        return np.asarray(matrix)
+    for i in range(1, n):
         matrix[i, i] = (1 + r**2) * factor
         matrix[i, i-1] = -r * factor
         matrix[i-1, i] = -r * factor
     matrix[0, 0] = factor
     matrix[n-1, n-1] = factor
-    matrix[i+1, i] = -r * factor
-    matrix[i, i+1] = -r * factor
     return np.asarray(matrix)
     
 
-- 
2.43.0


From 7eddb7890b570739429c495daad32b1ec359205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 26/27] fix: interpolation from extents was wrong for positions
 not in increasing order

---
 src/bayesbay/_utils_1d.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index b89b653..2d0a31e 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -129,9 +129,12 @@ cpdef interpolate_depth_profile(double[:] x, double[:] y, double[:] x0):
     
     for i in range(x0_len):
         x_i = x0[i]
+        if x_i < interface_lower:   # positions in any order: back to the first layer
+            ilayer = 0
+            interface_lower = 0
+            interface_upper = x[0]
         while True:
-            if interface_lower <= x_i < interface_upper or \
-                ilayer + 1 >= x_len:
+            if x_i < interface_upper or ilayer + 1 >= x_len:
                 ynew[i] = y[ilayer]
                 break
             else:
-- 
2.43.0


From 00184fab881b9a2944a0a31b7e5dd074b875579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 27/27] fix: sampling a parameter space turned nested
 discretizations into an object array

---
 src/bayesbay/parameterization/_parameter_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index 3190672..27b000a 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -182,7 +182,7 @@ class ParameterSpace:
         parameter_vals = dict()
         for name, param in self.parameters.items():
             parameter_vals[name] = [param.sample() for _ in range(n_dimensions)]
-            if isinstance(param, Prior):
+            if not isinstance(param, ParameterSpace):
                 parameter_vals[name] = np.array(parameter_vals[name])
         return ParameterSpaceState(n_dimensions, parameter_vals)
 
-- 
2.43.0

