From c45b270e610c661fd4389cd1ee4104cbf1090ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 01/81] fix: seed the predictive samplers in
 ModelBuilder.sample_model

---
 pymc_extras/model_builder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 6e712e5..b26e8ff 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -304,9 +304,15 @@ class ModelBuilder:
 
         with self.model:
             sampler_args = {**self.sampler_config, **kwargs}
+            random_seed = sampler_args.get("random_seed")
             idata = pm.sample(**sampler_args)
-            idata.extend(pm.sample_prior_predictive(), join="right")
-            idata.extend(pm.sample_posterior_predictive(idata), join="right")
+            if isinstance(random_seed, list | tuple | np.ndarray):
+                # One seed per chain was given to pm.sample; the predictive samplers take a single one
+                random_seed = random_seed[0]
+            idata.extend(pm.sample_prior_predictive(random_seed=random_seed), join="right")
+            idata.extend(
+                pm.sample_posterior_predictive(idata, random_seed=random_seed), join="right"
+            )
 
         idata = self.set_idata_attrs(idata)
         return idata
-- 
2.43.0


From d07c12211cca58dffe423f02cee7306b2560299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 02/81] fix: seed the initial point in fit_pathfinder

---
 pymc_extras/inference/pathfinder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/inference/pathfinder.py b/pymc_extras/inference/pathfinder.py
index 89e621c..2658ced 100644
--- a/pymc_extras/inference/pathfinder.py
+++ b/pymc_extras/inference/pathfinder.py
@@ -99,7 +99,9 @@ def fit_pathfinder(
 
     model = modelcontext(model)
 
-    ip = model.initial_point()
+    [pathfinder_seed, sample_seed] = _get_seeds_per_chain(random_seed, 2)
+
+    ip = model.initial_point(random_seed=pathfinder_seed)
     ip_map = DictToArrayBijection.map(ip)
 
     new_logprob, new_input = pm.pytensorf.join_nonshared_inputs(
@@ -111,8 +113,6 @@ def fit_pathfinder(
     def logprob_fn(x):
         return logprob_fn_list(x)[0]
 
-    [pathfinder_seed, sample_seed] = _get_seeds_per_chain(random_seed, 2)
-
     print("Running pathfinder...", file=sys.stdout)
     pathfinder_state, _ = blackjax.vi.pathfinder.approximate(
         rng_key=jax.random.key(pathfinder_seed),
-- 
2.43.0


From 3eb8962ea92011b914c93c771781ba7eb958fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 03/81] fix: draw the initial state of LinearGaussianStateSpace
 independently of the innovations

---
 .../statespace/filters/distributions.py       | 41 ++++++++++++++-----
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index d3b70c8..4429013 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -236,17 +236,23 @@ class _LinearGaussianStateSpace(Continuous):
 
         n_seq = len(sequence_names)
 
+        def innovation_fn(*args):
+            *matrices, rng = args
+            *_, H, Q = sort_args(matrices)
+
+            middle_rng, a_innovation = MvNormalSVD.dist(mu=0, cov=Q, rng=rng).owner.outputs
+            next_rng, y_innovation = MvNormalSVD.dist(mu=0, cov=H, rng=middle_rng).owner.outputs
+
+            return [a_innovation, y_innovation], {rng: next_rng}
+
         def step_fn(*args):
+            a_innovation, y_innovation, *args = args
             seqs, state, non_seqs = args[:n_seq], args[n_seq], args[n_seq + 1 :]
-            non_seqs, rng = non_seqs[:-1], non_seqs[-1]
 
             c, d, T, Z, R, H, Q = sort_args(seqs + non_seqs)
             k = T.shape[0]
             a = state[:k]
 
-            middle_rng, a_innovation = MvNormalSVD.dist(mu=0, cov=Q, rng=rng).owner.outputs
-            next_rng, y_innovation = MvNormalSVD.dist(mu=0, cov=H, rng=middle_rng).owner.outputs
-
             a_mu = c + T @ a
             a_next = a_mu + R @ a_innovation
 
@@ -255,21 +261,35 @@ class _LinearGaussianStateSpace(Continuous):
 
             next_state = pt.concatenate([a_next, y_next], axis=0)
 
-            return next_state, {rng: next_rng}
+            return next_state
+
+        # The rng consumed inside a scan has to be a shared variable. Draw all the innovations first, so that the
+        # initial state can be drawn from the rng they leave behind and is independent of them.
+        (a_innovations, y_innovations), updates = pytensor.scan(
+            innovation_fn,
+            sequences=None if len(sequences) == 0 else sequences,
+            non_sequences=[*non_sequences, rng],
+            n_steps=steps,
+            mode=mode,
+            strict=True,
+        )
+        (innovation_rng,) = tuple(updates.values())
 
         Z_init = Z_ if Z_ in non_sequences else Z_[0]
         H_init = H_ if H_ in non_sequences else H_[0]
 
-        init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng)
-        init_y_ = MvNormalSVD.dist(Z_init @ init_x_, H_init, rng=rng)
+        middle_rng, init_x_ = MvNormalSVD.dist(a0_, P0_, rng=innovation_rng).owner.outputs
+        ss_rng, init_y_ = MvNormalSVD.dist(
+            Z_init @ init_x_, H_init, rng=middle_rng
+        ).owner.outputs
 
         init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
 
-        statespace, updates = pytensor.scan(
+        statespace, _ = pytensor.scan(
             step_fn,
             outputs_info=[init_dist_],
-            sequences=None if len(sequences) == 0 else sequences,
-            non_sequences=[*non_sequences, rng],
+            sequences=[a_innovations, y_innovations, *sequences],
+            non_sequences=non_sequences,
             n_steps=steps,
             mode=mode,
             strict=True,
@@ -282,7 +302,6 @@ class _LinearGaussianStateSpace(Continuous):
             statespace_ = statespace
             statespace_ = pt.specify_shape(statespace_, (steps, None))
 
-        (ss_rng,) = tuple(updates.values())
         linear_gaussian_ss_op = LinearGaussianStateSpaceRV(
             inputs=[a0_, P0_, c_, d_, T_, Z_, R_, H_, Q_, steps, rng],
             outputs=[ss_rng, statespace_],
-- 
2.43.0


From 2e40eeb3927aa2d49fe66dcded67719fdf9a5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 04/81] fix: include the observation intercept in the first
 draw of LinearGaussianStateSpace

---
 pymc_extras/statespace/filters/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index 4429013..657c677 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -277,10 +277,11 @@ class _LinearGaussianStateSpace(Continuous):
 
         Z_init = Z_ if Z_ in non_sequences else Z_[0]
         H_init = H_ if H_ in non_sequences else H_[0]
+        d_init = d_ if d_ in non_sequences else d_[0]
 
         middle_rng, init_x_ = MvNormalSVD.dist(a0_, P0_, rng=innovation_rng).owner.outputs
         ss_rng, init_y_ = MvNormalSVD.dist(
-            Z_init @ init_x_, H_init, rng=middle_rng
+            d_init + Z_init @ init_x_, H_init, rng=middle_rng
         ).owner.outputs
 
         init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
-- 
2.43.0


From 2baca2055b6ebe7e0c31c0cf2a8557bd8c78e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 05/81] fix: raise the LinearGaussianStateSpace dims error
 instead of discarding it

---
 pymc_extras/statespace/filters/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index 657c677..5eb3703 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -344,7 +344,7 @@ class LinearGaussianStateSpace(Continuous):
         obs_dims = None
         if dims is not None:
             if len(dims) != 3:
-                ValueError(
+                raise ValueError(
                     "LinearGaussianStateSpace expects 3 dims: time, all_states, and observed_states"
                 )
             time_dim, state_dim, obs_dim = dims
-- 
2.43.0


From 87072524b1bad5e1cee654e89bfc4326b3382213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 06/81] fix: include the observation intercept in conditional
 observed means

---
 pymc_extras/statespace/core/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 8ad86c1..bda4ec0 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1138,7 +1138,7 @@ class PyMCStateSpace:
                     dims=state_dims,
                 )
 
-                obs_mu = (Z @ mu[..., None]).squeeze(-1)
+                obs_mu = d + (Z @ mu[..., None]).squeeze(-1)
                 obs_cov = Z @ cov @ pt.swapaxes(Z, -2, -1) + H
 
                 SequenceMvNormal(
-- 
2.43.0


From 5c750e1243a9c3a90a9af7a5522240bfdf178656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 07/81] fix: do not rename or re-index the user's data in
 preprocess_pandas_data

---
 pymc_extras/statespace/utils/data_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/utils/data_tools.py b/pymc_extras/statespace/utils/data_tools.py
index 5119726..a97f818 100644
--- a/pymc_extras/statespace/utils/data_tools.py
+++ b/pymc_extras/statespace/utils/data_tools.py
@@ -80,9 +80,7 @@ def preprocess_numpy_data(data, n_obs, obs_coords=None):
 
 def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=False):
     if isinstance(data, pd.Series):
-        if data.name is None:
-            data.name = "data"
-        data = data.to_frame()
+        data = data.to_frame(name="data" if data.name is None else data.name)
 
     col_names = data.columns
     _validate_data_shape(data.shape, n_obs, obs_coords, check_column_names, col_names)
@@ -95,9 +93,12 @@ def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=Fals
     elif isinstance(data.index, pd.DatetimeIndex):
         if data.index.freq is None:
             warnings.warn(NO_FREQ_INFO_WARNING)
-            data.index.freq = data.index.inferred_freq
 
-        index = data.index
+        # Work on a copy: the index belongs to the user's data
+        index = data.index.copy()
+        if index.freq is None:
+            index.freq = index.inferred_freq
+
         return data.values, index
 
     else:
-- 
2.43.0


From 4529a0ab51f7e2bffa09fb715ed956e5cda7475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 08/81] fix: do not change the scenario data given to forecast

---
 pymc_extras/statespace/core/statespace.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index bda4ec0..7e015c2 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1610,6 +1610,7 @@ class PyMCStateSpace:
             )
 
         if isinstance(scenario, dict):
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 if name not in self._exog_names:
                     raise ValueError(
@@ -1854,9 +1855,10 @@ class PyMCStateSpace:
             return scenario
 
         if isinstance(scenario, dict):
-            for name, data in scenario.items():
-                scenario[name] = self._finalize_scenario_initialization(data, forecast_index, name)
-            return scenario
+            return {
+                name: self._finalize_scenario_initialization(data, forecast_index, name)
+                for name, data in scenario.items()
+            }
 
         # This was already checked as valid
         name = self._exog_names[0] if name is None else name
-- 
2.43.0


From c4d3604d00799145871227e40726137362d41d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 09/81] fix: accept compile_kwargs in impulse_response_function

---
 pymc_extras/statespace/core/statespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 7e015c2..50cd533 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2220,9 +2220,9 @@ class PyMCStateSpace:
 
             pm.Deterministic("irf", irf, dims=[TIME_DIM, ALL_STATE_DIM])
 
-            compile_kwargs = kwargs.get("compile_kwargs", {})
+            compile_kwargs = dict(kwargs.pop("compile_kwargs", {}))
             if "mode" not in compile_kwargs.keys():
-                compile_kwargs = {"mode": self._fit_mode}
+                compile_kwargs.update({"mode": self._fit_mode})
             else:
                 mode = compile_kwargs.get("mode")
                 if mode is not None and mode != self._fit_mode:
-- 
2.43.0


From 846f1cb2cc3f7c761251cb9aa20bb4b3a77e27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 10/81] fix: do not change the compile_kwargs given to find_MAP

---
 pymc_extras/inference/find_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 72ce3b1..3cd7ca7 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -252,7 +252,7 @@ def scipy_optimize_funcs_from_loss(
         The compiled hessian-vector product function, or None if use_hessp is False.
     """
 
-    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
+    compile_kwargs = {} if compile_kwargs is None else dict(compile_kwargs)
 
     if (use_hess or use_hessp) and not use_grad:
         raise ValueError(
-- 
2.43.0


From 32836f2850147d1c3f228239ad06e529406e87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 11/81] fix: do not change a structural component when building
 a model from it

---
 pymc_extras/statespace/models/structural.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index bc61eab..4501347 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -138,12 +138,16 @@ class StructuralTimeSeries(PyMCStateSpace):
 
     @staticmethod
     def _add_inital_state_cov_to_properties(param_names, param_dims, param_info, k_states):
-        param_names += ["P0"]
-        param_dims["P0"] = (ALL_STATE_DIM, ALL_STATE_AUX_DIM)
-        param_info["P0"] = {
-            "shape": (k_states, k_states),
-            "constraints": "Positive semi-definite",
-            "dims": param_dims["P0"],
+        # Build new objects, because the ones passed in belong to the component this model is made from
+        param_names = [*param_names, "P0"]
+        param_dims = {**param_dims, "P0": (ALL_STATE_DIM, ALL_STATE_AUX_DIM)}
+        param_info = {
+            **param_info,
+            "P0": {
+                "shape": (k_states, k_states),
+                "constraints": "Positive semi-definite",
+                "dims": param_dims["P0"],
+            },
         }
 
         return param_names, param_dims, param_info
-- 
2.43.0


From c05cdced3b4aabe77c6932db1308bb1c52d9bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 12/81] fix: do not share dims bookkeeping between a model and
 its marginalized clone

---
 pymc_extras/model/marginal/marginal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 41ce699..ec91e26 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -221,7 +221,7 @@ class MarginalModel(Model):
         new_model = MarginalModel(coords=model.coords)
         if isinstance(model, MarginalModel):
             marginalized_rvs = model.marginalized_rvs
-            marginalized_named_vars_to_dims = model._marginalized_named_vars_to_dims
+            marginalized_named_vars_to_dims = model._marginalized_named_vars_to_dims.copy()
         else:
             marginalized_rvs = []
             marginalized_named_vars_to_dims = {}
@@ -236,7 +236,7 @@ class MarginalModel(Model):
         new_model.named_vars = treedict(
             {name: vars_to_clone[var] for name, var in model.named_vars.items()}
         )
-        new_model.named_vars_to_dims = model.named_vars_to_dims
+        new_model.named_vars_to_dims = model.named_vars_to_dims.copy()
         new_model.values_to_rvs = {vv: vars_to_clone[rv] for vv, rv in model.values_to_rvs.items()}
         new_model.rvs_to_values = {vars_to_clone[rv]: vv for rv, vv in model.rvs_to_values.items()}
         new_model.rvs_to_transforms = {
-- 
2.43.0


From aed87c6ddff87aa6bb9f6566dc7ce36f3ea0667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 13/81] fix: refuse to marginalize through a reduction of the
 first batch dimension

---
 pymc_extras/model/marginal/graph_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/graph_analysis.py b/pymc_extras/model/marginal/graph_analysis.py
index d4ad98a..e136e2a 100644
--- a/pymc_extras/model/marginal/graph_analysis.py
+++ b/pymc_extras/model/marginal/graph_analysis.py
@@ -219,7 +219,7 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             elif axes is None:
                 axes = tuple(range(node.inputs[0].type.ndim))
 
-            if any(input_dims[axis] for axis in axes):
+            if any(input_dims[axis] is not None for axis in axes):
                 raise ValueError(
                     f"Use of known dimensions as reduced dimensions of op {node.op} not supported."
                 )
-- 
2.43.0


From 6463eb45bb008a450daa8af2bd16030526742f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 14/81] fix: reject unrecognized var_names in recover_marginals

---
 pymc_extras/model/marginal/marginal_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index ec91e26..dd6fca6 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -383,7 +383,8 @@ class MarginalModel(Model):
 
         var_names = [var if isinstance(var, str) else var.name for var in var_names]
         vars_to_recover = [v for v in self.marginalized_rvs if v.name in var_names]
-        missing_names = [v.name for v in vars_to_recover if v not in self.marginalized_rvs]
+        recovered_names = [v.name for v in vars_to_recover]
+        missing_names = [name for name in var_names if name not in recovered_names]
         if missing_names:
             raise ValueError(f"Unrecognized var_names: {missing_names}")
 
-- 
2.43.0


From b57e0095ff2175260820a614d1909fc35f9f2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 15/81] fix: treat the chain dimension of a batched
 marginalized Markov chain as a core dimension

---
 pymc_extras/model/marginal/distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 33f4bc7..473e83e 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -29,16 +29,15 @@ class MarginalRV(OpFromGraph, MeasurableOp):
     @property
     def support_axes(self) -> tuple[tuple[int]]:
         """Dimensions of dependent RVs that belong to the core (non-batched) marginalized variable."""
-        marginalized_ndim_supp = self.inner_outputs[0].owner.op.ndim_supp
+        marginalized_rv = self.inner_outputs[0]
+        marginalized_batch_ndim = marginalized_rv.type.ndim - marginalized_rv.owner.op.ndim_supp
         support_axes_vars = []
         for dims_connection in self.dims_connections:
-            ndim = len(dims_connection)
-            marginalized_supp_axes = ndim - marginalized_ndim_supp
             support_axes_vars.append(
                 tuple(
                     -i
                     for i, dim in enumerate(reversed(dims_connection), start=1)
-                    if (dim is None or dim > marginalized_supp_axes)
+                    if (dim is None or dim >= marginalized_batch_ndim)
                 )
             )
         return tuple(support_axes_vars)
-- 
2.43.0


From a7033f7064cb0c40fc87ff33ddbf05d0e8e0b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 16/81] fix: align dependent logps with the inverse of the dims
 connection

reduce_batch_dependent_logps transposed by the dims connection itself, which
is its own inverse only for swaps; cyclic permutations of three or more batch
axes paired the dependent logp with the wrong entries.
---
 pymc_extras/model/marginal/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 473e83e..6639f70 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -111,7 +111,7 @@ def reduce_batch_dependent_logps(
 
             # Finally, we need to align the dependent logp batch dimensions with the marginalized logp
             dims_alignment = [dim for dim in dependent_dims_connection if dim is not None]
-            dependent_logp = dependent_logp.transpose(*dims_alignment)
+            dependent_logp = dependent_logp.transpose(*np.argsort(dims_alignment))
 
         reduced_logps.append(dependent_logp)
 
-- 
2.43.0


From 5e41d64a29bd2436fde65138723de70540c75e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 17/81] fix: draw BetaNegativeBinomial from NegativeBinomial(p,
 n)

The probability and the number of successes were passed positionally as mu
and alpha, so draws did not follow the distribution's logp.
---
 pymc_extras/distributions/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 0bfe8e7..23d41d3 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -251,7 +251,7 @@ class BetaNegativeBinomial:
             alpha, beta, r = pt.broadcast_arrays(alpha, beta, r)
 
         p = pm.Beta.dist(alpha, beta, size=size)
-        return pm.NegativeBinomial.dist(p, r, size=size)
+        return pm.NegativeBinomial.dist(p=p, n=r, size=size)
 
     @staticmethod
     def beta_negative_binomial_logp(value, alpha, beta, r):
-- 
2.43.0


From e8e8f50e9a9276416325057b7075b02dcba91ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 18/81] fix: discrete_histogram counts only the values it keeps

With min_count, bins were built from the kept values only, so the counts of
dropped values were added to the preceding kept value.
---
 pymc_extras/distributions/histogram_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/distributions/histogram_utils.py b/pymc_extras/distributions/histogram_utils.py
index 70b5c43..2ba6813 100644
--- a/pymc_extras/distributions/histogram_utils.py
+++ b/pymc_extras/distributions/histogram_utils.py
@@ -80,14 +80,15 @@ def discrete_histogram(data: ArrayLike, min_count=None) -> dict[str, ArrayLike]:
     if dask and isinstance(data, dask.dataframe.Series | dask.dataframe.DataFrame):
         data = data.to_dask_array(lengths=True)
     mid, count_uniq = np.unique(data, return_counts=True)
-    if min_count is not None:
-        mid = mid[count_uniq >= min_count]
-        count_uniq = count_uniq[count_uniq >= min_count]
     bins = np.concatenate([mid, [mid.max() + 1]])
     if dask:
-        mid, bins = dask.compute(mid, bins)
+        mid, count_uniq, bins = dask.compute(mid, count_uniq, bins)
     count, _ = xhistogram.core.histogram(data, bins=[bins], axis=0)
     count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
+    if min_count is not None:
+        keep = count_uniq >= min_count
+        mid = mid[keep]
+        count = count[keep]
     mid = mid.reshape(mid.shape + (1,) * (count.ndim - 1))
     return dict(mid=mid, count=count)
 
-- 
2.43.0


From 99ed819def3059100f70b4867d50c1d43ccafba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 19/81] fix: support point of batched DiscreteMarkovChain

The greedy transition took the argmax over all axes, left time in the first
axis, and started from a random draw of init_dist instead of its support
point.
---
 pymc_extras/distributions/timeseries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index bb4072f..c00fde2 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -239,17 +239,17 @@ def discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
     def greedy_transition(*args):
         *states, transition_probs, old_rng = args
         p = transition_probs[tuple(states)]
-        return pt.argmax(p)
+        return pt.argmax(p, axis=-1)
 
     chain_moment, moment_updates = pytensor.scan(
         greedy_transition,
         non_sequences=[P, state_rng],
-        outputs_info=_make_outputs_info(n_lags, init_dist),
+        outputs_info=_make_outputs_info(n_lags, init_dist_moment),
         n_steps=steps,
         strict=True,
     )
     chain_moment = pt.concatenate([init_dist_moment, chain_moment])
-    return chain_moment
+    return pt.moveaxis(chain_moment, 0, -1)
 
 
 @_logprob.register(DiscreteMarkovChainRV)
-- 
2.43.0


From 52bfee9626105b7ea5cf831cb2690965320f688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 20/81] fix: evaluate the initial logp of DiscreteMarkovChain
 along the lag axis

init_dist is laid out as (n_lags, *batch), the value as (*batch, n_lags); a
batched init_dist was broadcast against the wrong axis.
---
 pymc_extras/distributions/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index c00fde2..0c2dbb9 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -259,7 +259,8 @@ def discrete_mc_logp(op, values, P, steps, init_dist, state_rng, **kwargs):
 
     indexes = [value[..., i : -(n_lags - i) if n_lags != i else None] for i in range(n_lags + 1)]
 
-    mc_logprob = logp(init_dist, value[..., :n_lags]).sum(axis=-1)
+    # init_dist has the lags in its first dimension, followed by the batch dimensions
+    mc_logprob = logp(init_dist, pt.moveaxis(value[..., :n_lags], -1, 0)).sum(axis=0)
     mc_logprob += pt.log(P[tuple(indexes)]).sum(axis=-1)
 
     # We cannot leave any RV in the logp graph, even if just for an assert
-- 
2.43.0


From 5cc83940da9bcdd8b983ba4b692307accaad5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 21/81] fix: include the state intercept in the Kalman smoother

The smoother's prediction step omitted c, so smoothed states were wrong for
every model with a state intercept.
---
 pymc_extras/statespace/core/statespace.py     | 13 ++++++--
 .../statespace/filters/kalman_smoother.py     | 31 +++++++++++++------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 50cd533..cf05192 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -940,10 +940,17 @@ class PyMCStateSpace:
 
         pymc_model = modelcontext(None)
         with pymc_model:
-            *_, T, Z, R, H, Q = matrices
+            *_, c, d, T, Z, R, H, Q = matrices
 
             smooth_states, smooth_covariances = self.kalman_smoother.build_graph(
-                T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter
+                T,
+                R,
+                Q,
+                filtered_states,
+                filtered_covariances,
+                mode=mode,
+                cov_jitter=cov_jitter,
+                c=c,
             )
             smooth_states.name = "smooth_states"
             smooth_covariances.name = "smooth_covariances"
@@ -1047,7 +1054,7 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, _ = covariances
 
         [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(
-            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode
+            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode, c=c
         )
 
         grouped_outputs = [
diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index f15913b..27dda65 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -31,7 +31,7 @@ class KalmanSmoother:
         non-sequences. This function works out which matrices are where, and returns a standardized order expected
         by the kalman_step function.
 
-        The standard order is: a, P, a_smooth, P_smooth, T, R, Q
+        The standard order is: a, P, a_smooth, P_smooth, c, T, R, Q
         """
         # If there are no sequence parameters (all params are static),
         # no changes are needed, params will be in order.
@@ -51,7 +51,7 @@ class KalmanSmoother:
             args[n_seq + 2 :],
         )
         return_ordered = []
-        for name in ["T", "R", "Q"]:
+        for name in ["c", "T", "R", "Q"]:
             if name in self.seq_names:
                 idx = self.seq_names.index(name)
                 return_ordered.append(seqs[idx])
@@ -59,12 +59,20 @@ class KalmanSmoother:
                 idx = self.non_seq_names.index(name)
                 return_ordered.append(non_seqs[idx])
 
-        T, R, Q = return_ordered
+        c, T, R, Q = return_ordered
 
-        return a, P, a_smooth, P_smooth, T, R, Q
+        return a, P, a_smooth, P_smooth, c, T, R, Q
 
     def build_graph(
-        self, T, R, Q, filtered_states, filtered_covariances, mode=None, cov_jitter=JITTER_DEFAULT
+        self,
+        T,
+        R,
+        Q,
+        filtered_states,
+        filtered_covariances,
+        mode=None,
+        cov_jitter=JITTER_DEFAULT,
+        c=None,
     ):
         self.mode = mode
         self.cov_jitter = cov_jitter
@@ -74,8 +82,11 @@ class KalmanSmoother:
         a_last = pt.specify_shape(filtered_states[-1], (k,))
         P_last = pt.specify_shape(filtered_covariances[-1], (k, k))
 
+        if c is None:
+            c = pt.zeros_like(a_last)
+
         sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq(
-            [T, R, Q], ["T", "R", "Q"]
+            [c, T, R, Q], ["c", "T", "R", "Q"]
         )
 
         self.seq_names = seq_names
@@ -105,8 +116,8 @@ class KalmanSmoother:
         return smoothed_states, smoothed_covariances
 
     def smoother_step(self, *args):
-        a, P, a_smooth, P_smooth, T, R, Q = self.unpack_args(args)
-        a_hat, P_hat = self.predict(a, P, T, R, Q)
+        a, P, a_smooth, P_smooth, c, T, R, Q = self.unpack_args(args)
+        a_hat, P_hat = self.predict(a, P, c, T, R, Q)
 
         # Use pinv, otherwise P_hat is singular when there is missing data
         smoother_gain = matrix_dot(pt.linalg.pinv(P_hat), T, P).T
@@ -118,8 +129,8 @@ class KalmanSmoother:
 
         return a_smooth_next, P_smooth_next
 
-    def predict(self, a, P, T, R, Q):
-        a_hat = T.dot(a)
+    def predict(self, a, P, c, T, R, Q):
+        a_hat = T.dot(a) + c
         P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
         P_hat = stabilize(P_hat, self.cov_jitter)
 
-- 
2.43.0


From da2b33ce3ce643dff212b3523db525c4db5e0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 22/81] fix: align time-varying matrices with the states in the
 Kalman smoother

The backward pass starts at the second to last state but read the matrices
from the last time step.
---
 pymc_extras/statespace/filters/kalman_smoother.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index 27dda65..8a67216 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -92,6 +92,9 @@ class KalmanSmoother:
         self.seq_names = seq_names
         self.non_seq_names = non_seq_names
 
+        # The matrices at time t govern the transition from t to t+1, so there is none for the last state
+        sequences = [seq[:-1] for seq in sequences]
+
         smoother_result, updates = pytensor.scan(
             self.smoother_step,
             sequences=[filtered_states[:-1], filtered_covariances[:-1], *sequences],
-- 
2.43.0


From 7f8568c0f5276a80057e149ca9e324b77bd4decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 23/81] fix: do not add the default jitter on top of cov_jitter
 in the smoother

---
 pymc_extras/statespace/filters/kalman_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index 8a67216..a52f333 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -128,7 +128,7 @@ class KalmanSmoother:
 
         P_smooth_next = P + quad_form_sym(smoother_gain, P_smooth - P_hat)
         P_smooth_next = stabilize(P_smooth_next, self.cov_jitter)
-        P_smooth_next = pt.specify_shape(stabilize(P_smooth_next), P_smooth.type.shape)
+        P_smooth_next = pt.specify_shape(P_smooth_next, P_smooth.type.shape)
 
         return a_smooth_next, P_smooth_next
 
-- 
2.43.0


From 607fa71cdb6c51ab13a7fd153e64fdc70e11c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 24/81] fix: accept time-varying matrices in UnivariateFilter

The step function took its arguments in the order of static matrices.
---
 pymc_extras/statespace/filters/kalman_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 0ca47b5..3fcb0f5 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -788,7 +788,8 @@ class UnivariateFilter(BaseFilter):
 
         return a_filtered, P_filtered, pt.atleast_1d(y_hat), pt.atleast_2d(F), ll_inner
 
-    def kalman_step(self, y, a, P, c, d, T, Z, R, H, Q):
+    def kalman_step(self, *args):
+        y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
         nan_mask = pt.isnan(y)
 
         W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
-- 
2.43.0


From 85241de749214406753649638418467d428f7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 25/81] fix: treat missing_fill_value as missing in
 UnivariateFilter

Filled values were filtered as if they had been observed.
---
 pymc_extras/statespace/filters/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 3fcb0f5..c326c23 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -790,7 +790,7 @@ class UnivariateFilter(BaseFilter):
 
     def kalman_step(self, *args):
         y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
-        nan_mask = pt.isnan(y)
+        nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
 
         W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
         Z_masked = W.dot(Z)
-- 
2.43.0


From 2afb5eacf83a232e2566fd1c8b6383a99369d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 26/81] fix: log-likelihood of multivariate observations

StandardFilter counted the normalising constant once for any number of
observed series; SquareRootFilter multiplied the log determinant by the number
of series and solved twice with the same triangular factor.
---
 pymc_extras/statespace/filters/kalman_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index c326c23..6a4d65c 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -611,7 +611,7 @@ class StandardFilter(BaseFilter):
         ll = pt.switch(
             all_nan_flag,
             0.0,
-            -0.5 * (MVN_CONST + F_logdet + inner_term).ravel()[0],
+            -0.5 * (self.n_endog * MVN_CONST + F_logdet + inner_term).ravel()[0],
         )
 
         return a_filtered, P_filtered, y_hat, F, ll
@@ -685,15 +685,13 @@ class SquareRootFilter(BaseFilter):
         def compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
             a_filtered = a + K_F_chol @ solve_triangular(F_chol, v, lower=True)
 
-            inner_term = solve_triangular(
-                F_chol, solve_triangular(F_chol, v, lower=True), lower=True
-            )
-            loss = (v.T @ inner_term).ravel()
+            inner_term = solve_triangular(F_chol, v, lower=True)
+            loss = inner_term.T @ inner_term
 
             # abs necessary because we're not guaranteed a positive diagonal from the schur decomposition
             logdet = 2 * pt.log(pt.abs(pt.diag(F_chol))).sum()
 
-            ll = -0.5 * (self.n_endog * (MVN_CONST + logdet) + loss)[0]
+            ll = -0.5 * (self.n_endog * MVN_CONST + logdet + loss)
 
             return [a_filtered, P_chol_filtered, ll]
 
-- 
2.43.0


From 6de3ec860e00c74785fb15718855be1b86d78cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 27/81] fix: partially missing observations in the Kalman
 filter

The intercept of a missing series entered the log-likelihood as a forecast
error, correlated measurement errors left a non-symmetric forecast covariance,
and the Cholesky filter could not factor the masked measurement covariance.
Missing series are now independent of the rest and contribute zero to the
log-likelihood.
---
 .../statespace/filters/kalman_filter.py       | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 6a4d65c..1d125d2 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -308,14 +308,14 @@ class BaseFilter(ABC):
         return filter_results
 
     def handle_missing_values(
-        self, y, Z, H
-    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, float]:
+        self, y, d, Z, H
+    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, TensorVariable, float]:
         """
         Handle missing values in the observation data `y`
 
-        Adjusts the design matrix `Z` and the observation noise covariance matrix `H` by removing rows and/or columns
-        associated with the data that is not observed at this iteration. Missing values are replaced with zeros to prevent
-        propagating NaNs through the computation.
+        Adjusts the observation intercept `d`, the design matrix `Z` and the observation noise covariance matrix `H` so
+        that data not observed at this iteration is independent of the states and of the observed data. Missing values
+        are replaced with zeros to prevent propagating NaNs through the computation.
 
         Return a binary flag tensor `all_nan_flag`,indicating if all values in the observation data are missing. This
         flag is used for numerical adjustments in the update method.
@@ -324,6 +324,8 @@ class BaseFilter(ABC):
         ----------
         y : TensorVariable
             The observation data at time t.
+        d : TensorVariable
+            The observation intercept.
         Z : TensorVariable
             The design matrix.
         H : TensorVariable
@@ -334,6 +336,9 @@ class BaseFilter(ABC):
         y_masked : TensorVariable
             Observation vector with missing values replaced by zeros.
 
+        d_masked: TensorVariable
+            Observation intercept with zeros in place of the missing observations
+
         Z_masked: TensorVariable
             Design matrix adjusted to exclude the missing states from the information set of observed variables in the
             update step
@@ -353,11 +358,13 @@ class BaseFilter(ABC):
         all_nan_flag = pt.all(nan_mask).astype(pytensor.config.floatX)
         W = pt.diag(pt.bitwise_not(nan_mask).astype(pytensor.config.floatX))
 
+        d_masked = W.dot(d)
         Z_masked = W.dot(Z)
-        H_masked = W.dot(H)
+        # A variance of 1 / 2pi keeps H invertible, and the contribution to the log-likelihood at zero
+        H_masked = W.dot(H).dot(W) + (pt.identity_like(W) - W) / (2 * np.pi)
         y_masked = pt.set_subtensor(y[nan_mask], 0.0)
 
-        return y_masked, Z_masked, H_masked, all_nan_flag
+        return y_masked, d_masked, Z_masked, H_masked, all_nan_flag
 
     @staticmethod
     def predict(a, P, c, T, R, Q) -> tuple[TensorVariable, TensorVariable]:
@@ -527,10 +534,12 @@ class BaseFilter(ABC):
                2nd ed, Oxford University Press, 2012.
         """
         y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
-        y_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, Z, H)
+        y_masked, d_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(
+            y, d, Z, H
+        )
 
         a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
-            y=y_masked, a=a, d=d, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
+            y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
         )
 
         P_filtered = stabilize(P_filtered, self.cov_jitter)
@@ -663,7 +672,9 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        H_chol = pytensor.ifelse(pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H, lower=True))
+        H_chol = pytensor.ifelse(
+            pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(stabilize(H, self.cov_jitter), lower=True)
+        )
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
-- 
2.43.0


From a215b6ea929d8dbe25cc5901632e1a9bf6073564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 28/81] fix: forecasts of missing observations in the Kalman
 filter

The observed-state outputs ignored the states for missing observations, and
UnivariateFilter returned only those of the last series.
---
 .../statespace/filters/kalman_filter.py       | 41 ++++++++++++++-----
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 1d125d2..074317b 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -462,6 +462,15 @@ class BaseFilter(ABC):
         """
         raise NotImplementedError
 
+    def forecast_observed(self, a, P, d, Z, H) -> tuple[TensorVariable, TensorVariable]:
+        """
+        Mean and covariance of the observation at time t given information up to time t-1, missing or not.
+        """
+        obs_mu = d + Z.dot(a)
+        obs_cov = quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
+
+        return obs_mu, obs_cov
+
     def kalman_step(self, *args) -> tuple:
         """
         Performs a single iteration of the Kalman filter, which is composed of two steps : an update step and a
@@ -538,9 +547,10 @@ class BaseFilter(ABC):
             y, d, Z, H
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
+        a_filtered, P_filtered, _, _, ll = self.update(
             y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
         )
+        obs_mu, obs_cov = self.forecast_observed(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(P_filtered, self.cov_jitter)
 
@@ -656,6 +666,21 @@ class SquareRootFilter(BaseFilter):
 
         return a_hat, P_chol_hat
 
+    def _cholesky_H(self, H):
+        return pytensor.ifelse(
+            pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(stabilize(H, self.cov_jitter), lower=True)
+        )
+
+    def forecast_observed(self, a, P, d, Z, H):
+        """
+        As in the superclass, with the **cholesky factor** of the covariance matrices as input and output.
+        """
+        obs_mu = d + Z.dot(a)
+        M = pt.horizontal_stack(self._cholesky_H(H), Z @ P).T
+        obs_cov_chol = pt.linalg.qr(M, mode="r").T
+
+        return obs_mu, obs_cov_chol
+
     def update(self, a, P, y, d, Z, H, all_nan_flag):
         """
         Compute posterior estimates of the hidden state distributions conditioned on the observed data, up to and
@@ -672,9 +697,7 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        H_chol = pytensor.ifelse(
-            pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(stabilize(H, self.cov_jitter), lower=True)
-        )
+        H_chol = self._cholesky_H(H)
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
@@ -814,13 +837,9 @@ class UnivariateFilter(BaseFilter):
             name="univariate_inner_scan",
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll_inner = result
-        a_filtered, P_filtered, obs_mu, obs_cov = (
-            a_filtered[-1],
-            P_filtered[-1],
-            obs_mu[-1],
-            obs_cov[-1],
-        )
+        a_filtered, P_filtered, _, _, ll_inner = result
+        a_filtered, P_filtered = a_filtered[-1], P_filtered[-1]
+        obs_mu, obs_cov = self.forecast_observed(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
-- 
2.43.0


From e047a44da4e28c8e2622b9d1dbbedc34242fab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 29/81] fix: read time-varying observation matrices at the time
 of the observation in LinearGaussianStateSpace

---
 pymc_extras/statespace/filters/distributions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index 5eb3703..e2afaa9 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -218,6 +218,15 @@ class _LinearGaussianStateSpace(Continuous):
         ]
         non_sequences = [x for x in [c_, d_, T_, Z_, R_, H_, Q_] if x not in sequences]
 
+        # The observation at time 0 is drawn below, from the initial state. The first step goes from time 0 to time 1, so
+        # it reads the matrices of the observation equation at time 1.
+        step_sequences = []
+        for x in sequences:
+            varies = x.ndim == {"d": 2, "Z": 3, "H": 3}.get(x.name)
+            step_x = x[1:] if append_x0 and varies else x
+            step_x.name = x.name
+            step_sequences.append(step_x)
+
         rng = pytensor.shared(np.random.default_rng())
 
         def sort_args(args):
@@ -267,7 +276,7 @@ class _LinearGaussianStateSpace(Continuous):
         # initial state can be drawn from the rng they leave behind and is independent of them.
         (a_innovations, y_innovations), updates = pytensor.scan(
             innovation_fn,
-            sequences=None if len(sequences) == 0 else sequences,
+            sequences=None if len(step_sequences) == 0 else step_sequences,
             non_sequences=[*non_sequences, rng],
             n_steps=steps,
             mode=mode,
@@ -289,7 +298,7 @@ class _LinearGaussianStateSpace(Continuous):
         statespace, _ = pytensor.scan(
             step_fn,
             outputs_info=[init_dist_],
-            sequences=[a_innovations, y_innovations, *sequences],
+            sequences=[a_innovations, y_innovations, *step_sequences],
             non_sequences=non_sequences,
             n_steps=steps,
             mode=mode,
-- 
2.43.0


From 7564a8e5d0a32763b847dd9529b9492c4a32451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 30/81] fix: split states and observations of
 LinearGaussianStateSpace when T or H varies over time

---
 pymc_extras/statespace/filters/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index e2afaa9..395b8b8 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -396,7 +396,7 @@ class LinearGaussianStateSpace(Continuous):
         latent_obs_combined = _LinearGaussianStateSpace.dist(
             a0, P0, c, d, T, Z, R, H, Q, steps=steps, **kwargs
         )
-        k_states = T.type.shape[0]
+        k_states = T.type.shape[-1]
 
         latent_states = latent_obs_combined[..., :k_states]
         obs_states = latent_obs_combined[..., k_states:]
@@ -405,14 +405,14 @@ class LinearGaussianStateSpace(Continuous):
 
     @classmethod
     def _get_k_states(cls, T):
-        k_states = T.type.shape[0]
+        k_states = T.type.shape[-1]
         if k_states is None:
             raise ValueError(lgss_shape_message)
         return k_states
 
     @classmethod
     def _get_k_endog(cls, H):
-        k_endog = H.type.shape[0]
+        k_endog = H.type.shape[-1]
         if k_endog is None:
             raise ValueError(lgss_shape_message)
 
-- 
2.43.0


From fe0d20625717ff970203c63f5957ce8c26f3a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 31/81] fix: give the square root filter the Cholesky factor of
 P0

---
 pymc_extras/statespace/core/statespace.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index cf05192..34cdb55 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -867,7 +867,7 @@ class PyMCStateSpace:
 
         filter_outputs = self.kalman_filter.build_graph(
             pt.as_tensor_variable(data),
-            *self.unpack_statespace(),
+            *self._filter_matrices(self.unpack_statespace()),
             mode=mode,
             missing_fill_value=missing_fill_value,
             cov_jitter=cov_jitter,
@@ -900,6 +900,17 @@ class PyMCStateSpace:
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
 
+    def _filter_matrices(self, matrices: Sequence[pt.TensorVariable]) -> list[pt.TensorVariable]:
+        """
+        Statespace matrices in the form expected by the Kalman filter. The square root filter propagates Cholesky
+        factors, so it is started from the Cholesky factor of the initial state covariance.
+        """
+        x0, P0, *others = matrices
+        if isinstance(self.kalman_filter, SquareRootFilter):
+            P0 = pt.linalg.cholesky(stabilize(P0), lower=True)
+
+        return [x0, P0, *others]
+
     def _build_smoother_graph(
         self,
         filtered_states: pt.TensorVariable,
@@ -1035,15 +1046,7 @@ class PyMCStateSpace:
 
         filter_outputs = self.kalman_filter.build_graph(
             data,
-            x0,
-            P0,
-            c,
-            d,
-            T,
-            Z,
-            R,
-            H,
-            Q,
+            *self._filter_matrices([x0, P0, c, d, T, Z, R, H, Q]),
             mode=self._fit_mode,
         )
 
-- 
2.43.0


From 9bb010cfb917c0e4b86820779b27411a4bcaedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 32/81] fix: use the missing_fill_value and cov_jitter of the
 fit after estimation

---
 pymc_extras/statespace/core/statespace.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 34cdb55..7ad16f7 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -224,6 +224,8 @@ class PyMCStateSpace:
         self._fit_coords: dict[str, Sequence[str]] | None = None
         self._fit_dims: dict[str, Sequence[str]] | None = None
         self._fit_data: pt.TensorVariable | None = None
+        self._fit_missing_fill_value: float | None = None
+        self._fit_cov_jitter: float | None = None
 
         self._needs_exog_data = None
         self._exog_names = []
@@ -856,6 +858,8 @@ class PyMCStateSpace:
 
         obs_coords = pm_mod.coords.get(OBS_STATE_DIM, None)
         self._fit_data = data
+        self._fit_missing_fill_value = missing_fill_value
+        self._fit_cov_jitter = cov_jitter
 
         data, nan_mask = register_data_with_pymc(
             data,
@@ -879,7 +883,11 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, observed_covariances = covs
         if save_kalman_filter_outputs_in_idata:
             smooth_states, smooth_covariances = self._build_smoother_graph(
-                filtered_states, filtered_covariances, self.unpack_statespace(), mode=mode
+                filtered_states,
+                filtered_covariances,
+                self.unpack_statespace(),
+                mode=mode,
+                cov_jitter=JITTER_DEFAULT if cov_jitter is None else cov_jitter,
             )
             all_kf_outputs = [*states, smooth_states, *covs, smooth_covariances]
             self._register_kalman_filter_outputs_with_pymc_model(all_kf_outputs)
@@ -1042,12 +1050,15 @@ class PyMCStateSpace:
             obs_coords=obs_coords,
             data_dims=data_dims,
             register_data=True,
+            missing_fill_value=self._fit_missing_fill_value,
         )
 
         filter_outputs = self.kalman_filter.build_graph(
             data,
             *self._filter_matrices([x0, P0, c, d, T, Z, R, H, Q]),
             mode=self._fit_mode,
+            missing_fill_value=self._fit_missing_fill_value,
+            cov_jitter=self._fit_cov_jitter,
         )
 
         filter_outputs.pop(-1)
@@ -1057,7 +1068,14 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, _ = covariances
 
         [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(
-            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode, c=c
+            T,
+            R,
+            Q,
+            filtered_states,
+            filtered_covariances,
+            mode=self._fit_mode,
+            cov_jitter=JITTER_DEFAULT if self._fit_cov_jitter is None else self._fit_cov_jitter,
+            c=c,
         )
 
         grouped_outputs = [
-- 
2.43.0


From 617f5bd077896ae4371321b1214867d2cf84ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 33/81] fix: start forecasts at the last date also when verbose
 is False

---
 pymc_extras/statespace/core/statespace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 7ad16f7..0c80dbf 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1993,11 +1993,12 @@ class PyMCStateSpace:
         _validate_filter_arg(filter_output)
         time_index = self._get_fit_time_index()
 
-        if start is None and verbose:
-            _log.warning(
-                "No start date provided. Using the last date in the data index. To silence this warning, "
-                "explicitly pass a start date or set verbose = False"
-            )
+        if start is None:
+            if verbose:
+                _log.warning(
+                    "No start date provided. Using the last date in the data index. To silence this warning, "
+                    "explicitly pass a start date or set verbose = False"
+                )
             start = time_index[-1]
 
         if self._needs_exog_data and not isinstance(scenario, dict):
-- 
2.43.0


From 4a9d7dbf99fced0b9680e191dcc78eb50601ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 34/81] fix: reorder the columns of scenario data

---
 pymc_extras/statespace/core/statespace.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 0c80dbf..7f1036a 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1648,7 +1648,7 @@ class PyMCStateSpace:
 
                 # Recursively call this function to trigger the non-dictionary branch of the checks on each object
                 # inside the dictionary
-                scenario[name] = self._validate_scenario_data(data, name)
+                scenario[name] = self._validate_scenario_data(data, name, verbose=verbose)
 
             # The provided dictionary might be a mix of numpy arrays and dataframes if the user is truly horrible.
             # For checking shapes, the first object will always be good enough. But we also need to make sure all the
@@ -1726,13 +1726,14 @@ class PyMCStateSpace:
                         f"{', '.join(extra_columns)}"
                     )
 
-                if not (a == b for a, b in zip(expected_cols, cols)) and verbose:
-                    _log.warning(
-                        f"Scenario data for {name} has a different column order than the data used to fit the "
-                        f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
-                        f"silent errors."
-                    )
-                    scenario = scenario[expected_cols]
+                if not all(a == b for a, b in zip(expected_cols, cols)):
+                    if verbose:
+                        _log.warning(
+                            f"Scenario data for {name} has a different column order than the data used to fit the "
+                            f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
+                            f"silent errors."
+                        )
+                    scenario = scenario[list(expected_cols)]
 
             return scenario
 
-- 
2.43.0


From c035569991ea4a9cf9d7c2b0232abd3260decf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 35/81] fix: allow forecasts over the scenario index without
 periods or end

---
 pymc_extras/statespace/core/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 7f1036a..654a023 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1553,7 +1553,7 @@ class PyMCStateSpace:
                 raise ValueError(
                     "Integer start must be within the range of the data index used to fit the model."
                 )
-        if periods is None and end is None:
+        if periods is None and end is None and not use_scenario_index:
             raise ValueError("Must specify one of either periods or end")
         if periods is not None and end is not None:
             raise ValueError("Must specify exactly one of either periods or end")
-- 
2.43.0


From ed5c599bb83b9721be9cef7c7188c35509575d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 36/81] fix: sample unconditional trajectories over the time
 dimension of the data when steps is given

---
 pymc_extras/statespace/core/statespace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 654a023..8f53b3d 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1263,6 +1263,7 @@ class PyMCStateSpace:
                     f"Length of time dimension does not match specified number of steps, expected"
                     f" {n_dimsteps} steps, or steps=None."
                 )
+            steps = n_dimsteps - 1
         else:
             steps = len(temp_coords[TIME_DIM]) - 1
 
-- 
2.43.0


From dcdae3c9fdead93ed14dca4f3e7cff8edd27709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 37/81] fix: sample time-varying matrices and matrices that are
 also parameters

---
 pymc_extras/statespace/core/statespace.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 8f53b3d..3d9091d 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1515,12 +1515,18 @@ class PyMCStateSpace:
 
             self._insert_data_variables()
             matrices = self.unpack_statespace()
+            sampled_names = {}
             for short_name, matrix in zip(MATRIX_NAMES, matrices):
                 long_name = SHORT_NAME_TO_LONG[short_name]
                 if (long_name in matrix_names) or (short_name in matrix_names):
                     name = long_name if long_name in matrix_names else short_name
                     dims = [x if x in self._fit_coords else None for x in MATRIX_DIMS[short_name]]
-                    pm.Deterministic(name, matrix, dims=dims)
+                    if matrix.ndim > len(dims):
+                        dims = [TIME_DIM if TIME_DIM in self._fit_coords else None, *dims]
+                    # A matrix can have the name of the parameter that fills it
+                    sampled_name = f"{name}_matrix" if name in forward_model else name
+                    sampled_names[sampled_name] = name
+                    pm.Deterministic(sampled_name, matrix, dims=dims)
 
         # TODO: Remove this after pm.Flat has its initial_value fixed
         forward_model.rvs_to_initial_values = {
@@ -1530,12 +1536,12 @@ class PyMCStateSpace:
         with frozen_model:
             matrix_idata = pm.sample_posterior_predictive(
                 idata if group == "posterior" else idata.prior,
-                var_names=matrix_names,
+                var_names=list(sampled_names),
                 compile_kwargs={"mode": self._fit_mode},
                 extend_inferencedata=False,
             )
 
-        return matrix_idata
+        return matrix_idata.rename(sampled_names, groups="posterior_predictive")
 
     @staticmethod
     def _validate_forecast_args(
-- 
2.43.0


From 6e2d325e4380334586d906f375ccf2dadb599e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 38/81] fix: default number of steps in compile_statespace

---
 pymc_extras/statespace/core/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/compile.py b/pymc_extras/statespace/core/compile.py
index a9e13ee..a282911 100644
--- a/pymc_extras/statespace/core/compile.py
+++ b/pymc_extras/statespace/core/compile.py
@@ -34,7 +34,7 @@ def compile_statespace(
 
     def f(*, draws=1, **params):
         if isinstance(steps, pt.Variable):
-            inner_steps = params.get("steps", 100)
+            inner_steps = params.setdefault("steps", 100)
         else:
             inner_steps = steps
 
-- 
2.43.0


From ba23d08d5c1eaf7fc12e0cce2fd56e0beea6098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 39/81] fix: do not share matrix shapes between copies of a
 PytensorRepresentation

---
 pymc_extras/statespace/core/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 450108d..e4be800 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -435,4 +435,6 @@ class PytensorRepresentation:
             setattr(self, name, matrix)
 
     def copy(self):
-        return copy.copy(self)
+        new = copy.copy(self)
+        new.shapes = self.shapes.copy()
+        return new
-- 
2.43.0


From 22b9b1e4b4dd083033cce516772e551e4c3df223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 40/81] fix: return the whole matrix when all of it is sliced
 from a PytensorRepresentation

---
 pymc_extras/statespace/core/representation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index e4be800..b1e208e 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -393,10 +393,7 @@ class PytensorRepresentation:
             # Case 2b: The user asked for the whole matrix except time dummies. Ignore the slice and act like we're in
             # case 1.
             elif slice_ == (slice(None, None, None),) * (matrix.ndim - 1):
-                X = matrix[(0,) + (slice(None),) * (matrix.ndim - 1)]
-                X = pt.specify_shape(X, self.shapes[name][1:])
-                X.name = name
-                return X
+                return self[name]
 
             # Case 3b: User asked for an arbitrary sub-matrix. Give it back -- nothing else to be done
             slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
-- 
2.43.0


From b2b6914e6f072b8e15c3d4de40e675dc2d12a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 41/81] fix: time dimension and shape of the matrices given to
 a PytensorRepresentation

---
 pymc_extras/statespace/core/representation.py | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index b1e208e..4a5818c 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -210,6 +210,7 @@ class PytensorRepresentation:
                     matrix = self._numpy_to_pytensor(name, matrix)
                 else:
                     matrix = self._check_provided_tensor(name, matrix)
+                self._update_shape(name, matrix)
                 setattr(self, name, matrix)
 
             else:
@@ -298,9 +299,9 @@ class PytensorRepresentation:
                     )
 
                 # Time varying vector case, check only the static shapes
-                if X.ndim == 2 and X.shape[1:] != expected_shape:
+                if X.ndim == 2 and shape[1:] != expected_shape:
                     raise ValueError(
-                        f"Last dimension of array provided for {name} has shape {X.shape[1]}, "
+                        f"Last dimension of array provided for {name} has shape {shape[1]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -314,7 +315,7 @@ class PytensorRepresentation:
                 # Time varying matrix case, check only the static shapes
                 if X.ndim == 3 and shape[1:] != expected_shape:
                     raise ValueError(
-                        f"Last two dimensions of array provided for {name} have shapes {X.shape[1:]}, "
+                        f"Last two dimensions of array provided for {name} have shapes {shape[1:]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -329,14 +330,16 @@ class PytensorRepresentation:
 
     def _check_provided_tensor(self, name: str, X: pt.TensorVariable) -> pt.TensorVariable:
         self._validate_matrix_shape(name, X)
-        if name not in NEVER_TIME_VARYING:
+        if name in NEVER_TIME_VARYING:
+            X = pt.specify_shape(X, self.shapes[name])
+        else:
             if X.ndim == 1 and name in VECTOR_VALUED:
                 X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
+                X = pt.specify_shape(X, (1, *self.shapes[name][1:]))
 
-            elif X.ndim == 2:
+            elif X.ndim == 2 and name not in VECTOR_VALUED:
                 X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
+                X = pt.specify_shape(X, (1, *self.shapes[name][1:]))
 
         return X
 
@@ -412,10 +415,11 @@ class PytensorRepresentation:
             if isinstance(value, np.ndarray):
                 value = self._numpy_to_pytensor(key, value)
             else:
+                value = self._check_provided_tensor(key, value)
                 value.name = key
 
-            setattr(self, key, value)
             self._update_shape(key, value)
+            setattr(self, key, value)
 
         # Case 2: key is a string plus a slice: we are setting a subset of a matrix
         elif _type is tuple:
-- 
2.43.0


From 4881dc844e1a38bc7ee37c782a335e4fab098918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 42/81] fix: set single elements of never time-varying and
 fully indexed matrices

---
 pymc_extras/statespace/core/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 4a5818c..15c569a 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -424,6 +424,7 @@ class PytensorRepresentation:
         # Case 2: key is a string plus a slice: we are setting a subset of a matrix
         elif _type is tuple:
             name, *slice_ = key
+            slice_ = tuple(slice_)
             self._validate_key(name)
 
             matrix = getattr(self, name)
-- 
2.43.0


From 19906e68c42340bff1fa36b72240b534197799e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 43/81] fix: accept a single name as endog_names of BayesianETS

---
 pymc_extras/statespace/models/ETS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index a64f278..006d07c 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -257,7 +257,7 @@ class BayesianETS(PyMCStateSpace):
             raise ValueError("If seasonal is True, seasonal_periods must be provided.")
 
         if endog_names is not None:
-            endog_names = list(endog_names)
+            endog_names = [endog_names] if isinstance(endog_names, str) else list(endog_names)
             k_endog = len(endog_names)
         else:
             endog_names = [f"data_{i}" for i in range(k_endog)] if k_endog > 1 else ["data"]
-- 
2.43.0


From c1b72be85c93b89c03472ca00731f6f763ffc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 44/81] fix: ignore damped_trend without a trend in BayesianETS

---
 pymc_extras/statespace/models/ETS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index 006d07c..a49f379 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -239,7 +239,7 @@ class BayesianETS(PyMCStateSpace):
             seasonal = order[2] == "A"
 
         self.trend = trend
-        self.damped_trend = damped_trend
+        self.damped_trend = trend and damped_trend
         self.seasonal = seasonal
         self.seasonal_periods = seasonal_periods
         self.use_transformed_parameterization = use_transformed_parameterization
-- 
2.43.0


From 9255988854991d7e8475bad6218e874d44a36349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 45/81] fix: shape of initial_seasonal reported by BayesianETS

---
 pymc_extras/statespace/models/ETS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index a49f379..fbec054 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -337,7 +337,12 @@ class BayesianETS(PyMCStateSpace):
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": None,
             },
-            "initial_seasonal": {"shape": (self.seasonal_periods,), "constraints": None},
+            "initial_seasonal": {
+                "shape": (self.seasonal_periods,)
+                if self.k_endog == 1
+                else (self.k_endog, self.seasonal_periods),
+                "constraints": None,
+            },
             "sigma_obs": {
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": "Positive",
-- 
2.43.0


From 502fa636e99f519fe86598668f59e9e6a09d5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 46/81] fix: name every state of the interpretable seasonal
 BayesianSARIMA

---
 pymc_extras/statespace/models/SARIMAX.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/models/SARIMAX.py b/pymc_extras/statespace/models/SARIMAX.py
index f8a4203..759c853 100644
--- a/pymc_extras/statespace/models/SARIMAX.py
+++ b/pymc_extras/statespace/models/SARIMAX.py
@@ -303,11 +303,9 @@ class BayesianSARIMA(PyMCStateSpace):
 
         elif self.state_structure == "interpretable":
             states = ["data"]
-            if self.p > 0:
-                states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
+            states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
             states += ["innovations"]
-            if self.q > 0:
-                states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
+            states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From dd3751bf0dc7bf9d44d539536f33c6b44183fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 47/81] fix: sigma_obs of BayesianVARMAX holds one standard
 deviation per observed state

---
 pymc_extras/statespace/models/VARMAX.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/models/VARMAX.py b/pymc_extras/statespace/models/VARMAX.py
index b49765d..9b445cd 100644
--- a/pymc_extras/statespace/models/VARMAX.py
+++ b/pymc_extras/statespace/models/VARMAX.py
@@ -212,8 +212,8 @@ class BayesianVARMAX(PyMCStateSpace):
                 "constraints": "Positive Semi-definite",
             },
             "sigma_obs": {
-                "shape": (self.k_endog, self.k_endog),
-                "constraints": "Positive Semi-definite",
+                "shape": (self.k_endog,),
+                "constraints": "Positive",
             },
             "state_cov": {
                 "shape": (self.k_posdef, self.k_posdef),
@@ -369,7 +369,7 @@ class BayesianVARMAX(PyMCStateSpace):
             sigma_obs = self.make_and_register_variable(
                 "sigma_obs", shape=(self.k_endog,), dtype=floatX
             )
-            self.ssm[obs_cov_idx] = sigma_obs
+            self.ssm[obs_cov_idx] = sigma_obs**2
 
         state_cov = self.make_and_register_variable(
             "state_cov", shape=(self.k_posdef, self.k_posdef), dtype=floatX
-- 
2.43.0


From dccd192ea82f62887a3ae4bcc2d4aee5a1f0aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 48/81] fix: keep the first state of a TimeSeasonality when
 pop_state is False

---
 pymc_extras/statespace/models/structural.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 4501347..0ba4898 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1188,6 +1188,8 @@ class TimeSeasonality(Component):
             # TODO: Can this be stashed and reconstructed automatically somehow?
             state_names.pop(0)
             k_states = season_length - 1
+        else:
+            k_states = season_length
 
         super().__init__(
             name=name,
@@ -1222,8 +1224,14 @@ class TimeSeasonality(Component):
             self.shock_names = [f"{self.name}"]
 
     def make_symbolic_graph(self) -> None:
-        T = np.eye(self.k_states, k=-1)
-        T[0, :] = -1
+        if self.pop_state:
+            # The current effect is minus the sum of the effects of the previous season_length - 1 periods
+            T = np.eye(self.k_states, k=-1)
+            T[0, :] = -1
+        else:
+            # All the effects are states, so they are only cycled through
+            T = np.eye(self.k_states, k=1)
+            T[-1, 0] = 1
 
         self.ssm["transition", :, :] = T
         self.ssm["design", 0, 0] = 1
-- 
2.43.0


From 817dd8318cc7bac5b8e6a75a23943cc4e3c5feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 49/81] fix: shape of ar_params reported by
 AutoregressiveComponent

---
 pymc_extras/statespace/models/structural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 0ba4898..d1e553b 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1027,7 +1027,7 @@ class AutoregressiveComponent(Component):
 
         self.param_info = {
             "ar_params": {
-                "shape": (self.k_states,),
+                "shape": (int(sum(self.order)),),
                 "constraints": None,
                 "dims": (AR_PARAM_DIM,),
             },
-- 
2.43.0


From c0d3a2aafc93e858602f05b2c8aef112f46b82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 50/81] fix: shape of sigma_beta reported by
 RegressionComponent

---
 pymc_extras/statespace/models/structural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index d1e553b..a81faca 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1657,7 +1657,7 @@ class RegressionComponent(Component):
             self.param_names += [f"sigma_beta_{self.name}"]
             self.param_dims[f"sigma_beta_{self.name}"] = "exog_state"
             self.param_info[f"sigma_beta_{self.name}"] = {
-                "shape": (),
+                "shape": (self.k_states,),
                 "constraints": "Positive",
                 "dims": ("exog_state",),
             }
-- 
2.43.0


From 52d1e22f0fe7a22472b818a9703fd9f14e72c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 51/81] fix: name the shocks of a CycleComponent without
 innovations

---
 pymc_extras/statespace/models/structural.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index a81faca..e836a56 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1560,7 +1560,9 @@ class CycleComponent(Component):
                 "constraints": "Positive",
                 "dims": None,
             }
-            self.shock_names = self.state_names.copy()
+
+        # The component has shocks, of variance zero, also when innovations is False
+        self.shock_names = self.state_names.copy()
 
 
 class RegressionComponent(Component):
-- 
2.43.0


From 8eef83229f7032cec9a2391e13a0211f3787bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 52/81] fix: name every state of a LevelTrendComponent that
 skips a derivative

---
 pymc_extras/statespace/models/structural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index e836a56..388f1a7 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -842,7 +842,7 @@ class LevelTrendComponent(Component):
     def populate_component_properties(self):
         name_slice = POSITION_DERIVATIVE_NAMES[: self.k_states]
         self.param_names = ["initial_trend"]
-        self.state_names = [name for name, mask in zip(name_slice, self._order_mask) if mask]
+        self.state_names = list(name_slice)
         self.param_dims = {"initial_trend": ("trend_state",)}
         self.coords = {"trend_state": self.state_names}
         self.param_info = {"initial_trend": {"shape": (self.k_states,), "constraints": None}}
-- 
2.43.0


From bc85d5a6e8906369500e85483ed8737d9ec81e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 53/81] fix: give each RegressionComponent a dimension of its
 own

---
 pymc_extras/statespace/models/structural.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 388f1a7..842d824 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1636,30 +1636,30 @@ class RegressionComponent(Component):
         self.param_names = [f"beta_{self.name}"]
         self.data_names = [f"data_{self.name}"]
         self.param_dims = {
-            f"beta_{self.name}": ("exog_state",),
+            f"beta_{self.name}": (f"{self.name}_state",),
         }
 
         self.param_info = {
             f"beta_{self.name}": {
                 "shape": (self.k_states,),
                 "constraints": None,
-                "dims": ("exog_state",),
+                "dims": (f"{self.name}_state",),
             },
         }
 
         self.data_info = {
             f"data_{self.name}": {
                 "shape": (None, self.k_states),
-                "dims": (TIME_DIM, "exog_state"),
+                "dims": (TIME_DIM, f"{self.name}_state"),
             },
         }
-        self.coords = {"exog_state": self.state_names}
+        self.coords = {f"{self.name}_state": self.state_names}
 
         if self.innovations:
             self.param_names += [f"sigma_beta_{self.name}"]
-            self.param_dims[f"sigma_beta_{self.name}"] = "exog_state"
+            self.param_dims[f"sigma_beta_{self.name}"] = (f"{self.name}_state",)
             self.param_info[f"sigma_beta_{self.name}"] = {
                 "shape": (self.k_states,),
                 "constraints": "Positive",
-                "dims": ("exog_state",),
+                "dims": (f"{self.name}_state",),
             }
-- 
2.43.0


From 92c785db6cf3e9c81fbdede9dea151a3e25102d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 54/81] fix: keep the coords given to as_model on every call of
 the model function

---
 pymc_extras/model/model_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/model_api.py b/pymc_extras/model/model_api.py
index aeec8be..bcdb283 100644
--- a/pymc_extras/model/model_api.py
+++ b/pymc_extras/model/model_api.py
@@ -43,10 +43,12 @@ def as_model(*model_args, **model_kwargs):
 
     """
 
+    model_coords = model_kwargs.pop("coords", {})
+
     def decorator(f):
         @wraps(f)
         def make_model(*args, **kwargs):
-            coords = model_kwargs.pop("coords", {}) | kwargs.pop("coords", {})
+            coords = model_coords | kwargs.pop("coords", {})
             with Model(*model_args, coords=coords, **model_kwargs) as m:
                 f(*args, **kwargs)
             return m
-- 
2.43.0


From 71fe0cbb51d36abfe52e877ed7cf2ea429692c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 55/81] fix: refuse to reparametrize observed variables

---
 pymc_extras/model/transforms/autoreparam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymc_extras/model/transforms/autoreparam.py b/pymc_extras/model/transforms/autoreparam.py
index 0b7f220..984586c 100644
--- a/pymc_extras/model/transforms/autoreparam.py
+++ b/pymc_extras/model/transforms/autoreparam.py
@@ -14,6 +14,7 @@ from pymc.distributions import SymbolicRandomVariable
 from pymc.logprob.transforms import Transform
 from pymc.model.fgraph import (
     ModelDeterministic,
+    ModelFreeRV,
     ModelNamed,
     fgraph_from_model,
     model_deterministic,
@@ -414,6 +415,8 @@ def vip_reparametrize(
     replacements = []
     for name in var_names:
         old = memo[model.named_vars[name]]
+        if not isinstance(old.owner.op, ModelFreeRV):
+            raise ValueError(f"Only free random variables can be reparametrized, {name} is not one")
         rv, _, *dims = old.owner.inputs
         new, lam = vip_reparam_node(
             rv.owner.op,
-- 
2.43.0


From 30fb7bd4b7a4520f5e85ab57eac2dd279371a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 56/81] fix: truncate lambdas that lie on the threshold

---
 pymc_extras/model/transforms/autoreparam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/transforms/autoreparam.py b/pymc_extras/model/transforms/autoreparam.py
index 984586c..a554b92 100644
--- a/pymc_extras/model/transforms/autoreparam.py
+++ b/pymc_extras/model/transforms/autoreparam.py
@@ -85,7 +85,7 @@ class VIP:
             lam = lambdas[var]
             update[var] = np.piecewise(
                 lam,
-                [lam < eps, lam > (1 - eps)],
+                [lam <= eps, lam >= (1 - eps)],
                 [0, 1, lambda x: x],
             )
         self.set_lambda(**update)
-- 
2.43.0


From c6689575638eb87e25bb30676da711b7ae5411aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 57/81] fix: project onto the positive semi-definite matrices
 with orthonormal eigenvectors

---
 pymc_extras/inference/find_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 3cd7ca7..ce7fc88 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -59,7 +59,7 @@ def get_nearest_psd(A: np.ndarray) -> np.ndarray:
         The nearest positive semi-definite matrix to the input matrix.
     """
     C = (A + A.T) / 2
-    eigval, eigvec = np.linalg.eig(C)
+    eigval, eigvec = np.linalg.eigh(C)
     eigval[eigval < 0] = 0
 
     return eigvec @ np.diag(eigval) @ eigvec.T
-- 
2.43.0


From 434a54f46cb38d35b9918e80f2b03fc005a96be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 58/81] fix: refuse unknown methods in fit

---
 pymc_extras/inference/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymc_extras/inference/fit.py b/pymc_extras/inference/fit.py
index 2da447c..e487441 100644
--- a/pymc_extras/inference/fit.py
+++ b/pymc_extras/inference/fit.py
@@ -42,3 +42,5 @@ def fit(method, **kwargs):
         from pymc_extras.inference.laplace import fit_laplace
 
         return fit_laplace(**kwargs)
+
+    raise ValueError(f"Unknown method {method}. Supported: pathfinder or laplace")
-- 
2.43.0


From 565e90fb8d251463d60981da153e5ced74339479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 59/81] fix: evaluate the Hessian of fit_mvn_to_MAP at the
 optimized point

---
 pymc_extras/inference/laplace.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 1cfe041..d6eb6c3 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -288,8 +288,8 @@ def fit_mvn_to_MAP(
         logp = frozen_model.logp(jacobian=True)
         variables = frozen_model.continuous_value_vars
 
-    variable_names = {var.name for var in variables}
-    optimized_free_params = {k: v for k, v in optimized_point.items() if k in variable_names}
+    # The Hessian is a function of the raveled variables, so the point is raveled in the same order
+    optimized_free_params = {var.name: optimized_point[var.name] for var in variables}
     mu = DictToArrayBijection.map(optimized_free_params)
 
     _, f_hess, _ = scipy_optimize_funcs_from_loss(
@@ -396,9 +396,14 @@ def sample_laplace_posterior(
             slice(sum(flat_shapes[:i]), sum(flat_shapes[: i + 1])) for i in range(len(flat_shapes))
         ]
 
-        posterior_draws = [
-            posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
+        draws_by_name = {
+            name: posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
             for idx, (name, shape, _, dtype) in zip(slices, info)
+        }
+        posterior_draws = [
+            draws_by_name[x.name]
+            for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
+            if x.name in draws_by_name
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-- 
2.43.0


From 8464a02e650c73e8e43ec3ac79720e8d7e498d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 60/81] fix: use the model given to sample_laplace_posterior

---
 pymc_extras/inference/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index d6eb6c3..b569a3e 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -407,7 +407,7 @@ def sample_laplace_posterior(
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-    idata = add_fit_to_inferencedata(idata, mu, H_inv)
+    idata = add_fit_to_inferencedata(idata, mu, H_inv, model)
     idata = add_data_to_inferencedata(idata, progressbar, model, compile_kwargs)
 
     return idata
-- 
2.43.0


From 30e038028dcea4cce5a5a9b1c9f125e14d2ef1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 61/81] fix: compute the Hessian of fit_laplace with the chosen
 gradient_backend

---
 pymc_extras/inference/laplace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index b569a3e..86de1a9 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -557,6 +557,7 @@ def fit_laplace(
         model=model,
         on_bad_cov=on_bad_cov,
         transform_samples=fit_in_unconstrained_space,
+        gradient_backend=gradient_backend,
         zero_tol=zero_tol,
         diag_jitter=diag_jitter,
         compile_kwargs=compile_kwargs,
-- 
2.43.0


From 5261fa5c3ddf8c1306abc3982de3d13a51af0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 62/81] fix: return the optimizer result of fit_laplace when
 return_raw is True

---
 pymc_extras/inference/laplace.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 86de1a9..115db10 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -505,8 +505,9 @@ def fit_laplace(
 
     Returns
     -------
-    idata: az.InferenceData
-        An InferenceData object containing the approximated posterior samples.
+    idata: az.InferenceData or tuple[az.InferenceData, OptimizeResult]
+        An InferenceData object containing the approximated posterior samples. If return_raw is True, also returns the
+        object returned by ``scipy.optimize.minimize``.
 
     Examples
     --------
@@ -552,6 +553,9 @@ def fit_laplace(
         **optimizer_kwargs,
     )
 
+    if return_raw:
+        optimized_point, optimizer_result = optimized_point
+
     mu, H_inv = fit_mvn_to_MAP(
         optimized_point=optimized_point,
         model=model,
@@ -563,7 +567,7 @@ def fit_laplace(
         compile_kwargs=compile_kwargs,
     )
 
-    return sample_laplace_posterior(
+    idata = sample_laplace_posterior(
         mu=mu,
         H_inv=H_inv,
         model=model,
@@ -574,3 +578,8 @@ def fit_laplace(
         random_seed=random_seed,
         compile_kwargs=compile_kwargs,
     )
+
+    if return_raw:
+        return idata, optimizer_result
+
+    return idata
-- 
2.43.0


From b8f5063539fd776e7b42e915eeadf9a798c0a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 63/81] fix: Laplace approximation of variables whose elements
 have no coords

---
 pymc_extras/inference/laplace.py | 37 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 115db10..3f83a2a 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -79,14 +79,20 @@ def laplace_draws_to_inferencedata(
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
             return coords
-        return coords | {dim: list(model.coords[dim]) for dim in extra_dims}
+        return coords | {
+            dim: list(model.coords[dim])
+            for dim in extra_dims
+            if model.coords.get(dim) is not None
+        }
 
-    def make_rv_dims(name):
+    def make_rv_dims(name, ndim):
         dims = ["chain", "draw"]
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
-            return dims
-        return dims + list(extra_dims)
+            extra_dims = [None] * ndim
+        return dims + [
+            f"{name}_dim_{i}" if dim is None else dim for i, dim in enumerate(extra_dims)
+        ]
 
     names = [
         x.name for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
@@ -95,7 +101,7 @@ def laplace_draws_to_inferencedata(
         name: xr.DataArray(
             data=draws,
             coords=make_rv_coords(name),
-            dims=make_rv_dims(name),
+            dims=make_rv_dims(name, draws.ndim - 2),
             name=name,
         )
         for name, draws in zip(names, posterior_draws)
@@ -133,9 +139,7 @@ def add_fit_to_inferencedata(
     model = pm.modelcontext(model)
     coords = model.coords
 
-    variable_names, *_ = zip(*mu.point_map_info)
-
-    def make_unpacked_variable_names(name):
+    def make_unpacked_variable_names(name, shape):
         value_to_dim = {
             x.name: model.named_vars_to_dims.get(model.values_to_rvs[x].name, None)
             for x in model.value_vars
@@ -145,14 +149,25 @@ def add_fit_to_inferencedata(
         rv_to_dim = model.named_vars_to_dims
         dims_dict = rv_to_dim | value_to_dim
 
+        if not shape:
+            return [name]
         dims = dims_dict.get(name)
         if dims is None:
-            return [name]
-        labels = product(*(coords[dim] for dim in dims))
+            dims = [None] * len(shape)
+
+        # Elements that do not match the coords of a dimension are labeled by their position
+        labels = product(
+            *(
+                range(size) if coords.get(dim) is None or len(coords[dim]) != size else coords[dim]
+                for dim, size in zip(dims, shape)
+            )
+        )
         return [f"{name}[{','.join(map(str, label))}]" for label in labels]
 
     unpacked_variable_names = reduce(
-        lambda lst, name: lst + make_unpacked_variable_names(name), variable_names, []
+        lambda lst, info: lst + make_unpacked_variable_names(info[0], info[1]),
+        mu.point_map_info,
+        [],
     )
 
     mean_dataarray = xr.DataArray(mu.data, dims=["rows"], coords={"rows": unpacked_variable_names})
-- 
2.43.0


From a79ebd1c11d93a96d2c028cc05ee05981c1fb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 64/81] fix: use the model given to sample_smc_blackjax to
 build the InferenceData

---
 pymc_extras/inference/smc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index 7173bc4..00008f2 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -217,7 +217,7 @@ def arviz_from_particles(model, particles):
     for particle_index in range(0, n_particles):
         strace.record(point={k: np.asarray(by_varname[k][0][particle_index]) for k in varnames})
         multitrace = MultiTrace((strace,))
-    return to_inference_data(multitrace, log_likelihood=False)
+    return to_inference_data(multitrace, log_likelihood=False, model=model)
 
 
 class SMCDiagnostics(NamedTuple):
-- 
2.43.0


From 133ab48646cc16be9c1e19b03ceb4ba198a46395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 65/81] fix: keep the shapes of particles of variables that
 have dimensions of size one

---
 pymc_extras/inference/smc/sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index 00008f2..47fc09b 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -207,7 +207,7 @@ def arviz_from_particles(model, particles):
     """
     n_particles = jax.tree_util.tree_flatten(particles)[0][0].shape[0]
     by_varname = {
-        k.name: v.squeeze()[np.newaxis, :].astype(k.dtype)
+        k.name: (v.reshape(n_particles) if k.ndim == 0 else v)[np.newaxis, :].astype(k.dtype)
         for k, v in zip(model.value_vars, particles)
     }
     varnames = [v.name for v in model.value_vars]
@@ -396,7 +396,9 @@ def get_jaxified_particles_fn(model, graph_outputs):
     logp_fn = get_jaxified_graph(inputs=model.value_vars, outputs=[graph_outputs])
 
     def logp_fn_wrap(particles):
-        return logp_fn(*[p.squeeze() for p in particles])[0]
+        return logp_fn(
+            *[p.squeeze() if v.ndim == 0 else p for v, p in zip(model.value_vars, particles)]
+        )[0]
 
     return logp_fn_wrap
 
-- 
2.43.0


From 133bf3caac4c4bda7536aeb7687c9bd634988683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 66/81] fix: warn when SMC ran more iterations than were
 diagnosed

---
 pymc_extras/inference/smc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index 47fc09b..b84a541 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -180,7 +180,7 @@ def sample_smc_blackjax(
         running_time,
     )
 
-    if total_iterations < iterations_to_diagnose:
+    if total_iterations > iterations_to_diagnose:
         log.warning(
             f"Only the first {iterations_to_diagnose} were included in diagnosed quantities out of {total_iterations}."
         )
-- 
2.43.0


From c939e37be7c9d80a4ec2586fec9c43494756beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 67/81] fix: find_MAP of models with discrete variables

---
 pymc_extras/inference/find_map.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index ce7fc88..eb5954a 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -381,17 +381,16 @@ def find_MAP(
     )
 
     start_dict = ipfn(random_seed)
-    vars_dict = {var.name: var for var in frozen_model.continuous_value_vars}
-    initial_params = DictToArrayBijection.map(
-        {var_name: value for var_name, value in start_dict.items() if var_name in vars_dict}
-    )
+    inputs = frozen_model.continuous_value_vars + frozen_model.discrete_value_vars
+    # The loss is a function of the raveled inputs, so the initial point is raveled in the same order
+    initial_params = DictToArrayBijection.map({var.name: start_dict[var.name] for var in inputs})
     use_grad, use_hess, use_hessp = set_optimizer_function_defaults(
         method, use_grad, use_hess, use_hessp
     )
 
     f_logp, f_hess, f_hessp = scipy_optimize_funcs_from_loss(
         loss=-frozen_model.logp(jacobian=False),
-        inputs=frozen_model.continuous_value_vars + frozen_model.discrete_value_vars,
+        inputs=inputs,
         initial_point_dict=start_dict,
         use_grad=use_grad,
         use_hess=use_hess,
-- 
2.43.0


From 98fb9f34735071c93314e6af7d5515fc9f15ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 68/81] fix: use the mean function in KarhunenLoeveExpansion

---
 pymc_extras/gp/latent_approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 346e589..0f0d65d 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -139,7 +139,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         super().__init__(mean_func=mean_func, cov_func=cov_func)
 
     def _build_prior(self, name, X, jitter=1e-6, **kwargs):
-        self.mean_func(X)
+        mu = self.mean_func(X)
         Kxx = pm.gp.util.stabilize(self.cov_func(X), jitter)
         vals, vecs = pt.linalg.eigh(Kxx)
         ## NOTE: REMOVED PRECISION CUTOFF
@@ -157,7 +157,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         coefs_raw = pm.Normal(f"_gp_{name}_coefs", mu=0, sigma=1, size=n_eigs)
         # weight = pm.HalfNormal(f"_gp_{name}_sd")
         # coefs = weight * coefs_raw # dont understand this prior, why weight * coeffs_raw?
-        f = basis @ coefs_raw
+        f = mu + basis @ coefs_raw
         return f, U, s, n_eigs
 
     def prior(self, name, X, jitter=1e-6, **kwargs):
@@ -171,7 +171,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         Kxs = self.cov_func(X, Xnew)
         Kss = self.cov_func(Xnew)
         Kxxpinv = U @ pt.diag(1.0 / s) @ U.T
-        mus = Kxs.T @ Kxxpinv @ f
+        mus = self.mean_func(Xnew) + Kxs.T @ Kxxpinv @ (f - self.mean_func(X))
         K = Kss - Kxs.T @ Kxxpinv @ Kxs
         L = cholesky(stabilize(K, jitter))
         return mus, L
-- 
2.43.0


From 60f9a711759ded8f2eb36263cf4515776f278057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 69/81] fix: number of eigenvalues for the variance_limit of
 KarhunenLoeveExpansion

---
 pymc_extras/gp/latent_approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 0f0d65d..e57b99d 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -147,9 +147,11 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
             n_eigs = self.n_eigs
         else:
             if self.variance_limit == 1:
-                n_eigs = len(vals)
+                n_eigs = vals.shape[0]
             else:
-                n_eigs = ((vals[::-1].cumsum() / vals.sum()) > self.variance_limit).nonzero()[0][0]
+                # The index of the first eigenvalue that takes the explained variance above the limit, which is kept
+                above = (vals[::-1].cumsum() / vals.sum()) > self.variance_limit
+                n_eigs = above.nonzero()[0][0] + 1
         U = vecs[:, -n_eigs:]
         s = vals[-n_eigs:]
         basis = U * pt.sqrt(s)
-- 
2.43.0


From 92e0d26e35a5a4fc91c74e499e6f67a2b8a0fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 70/81] fix: pass the keyword arguments of
 ProjectedProcess.conditional to the distribution

---
 pymc_extras/gp/latent_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index e57b99d..e807291 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -122,7 +122,7 @@ class ProjectedProcess(pm.gp.Latent):
         mu, chol = self._build_conditional(
             name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter, **kwargs
         )
-        return pm.MvNormal(name, mu=mu, chol=chol)
+        return pm.MvNormal(name, mu=mu, chol=chol, **kwargs)
 
 
 class KarhunenLoeveExpansion(pm.gp.Latent):
-- 
2.43.0


From 8f0ff76b439d767b0d773f68484701c4cebf9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 71/81] fix: pass the keyword arguments of
 KarhunenLoeveExpansion.prior to the variable

---
 pymc_extras/gp/latent_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index e807291..bccbf66 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -167,7 +167,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         self.U, self.s, self.n_eigs = U, s, n_eigs
         self.X = X
         self.f = f
-        return pm.Deterministic(name, f)
+        return pm.Deterministic(name, f, **kwargs)
 
     def _build_conditional(self, Xnew, X, f, U, s, jitter):
         Kxs = self.cov_func(X, Xnew)
-- 
2.43.0


From ab400ee7398dabb3f60acfad36d868ff81003aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 72/81] fix: solve for vectors in linear_cg

---
 pymc_extras/utils/linear_cg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/utils/linear_cg.py b/pymc_extras/utils/linear_cg.py
index 4efaadb..fd2a067 100644
--- a/pymc_extras/utils/linear_cg.py
+++ b/pymc_extras/utils/linear_cg.py
@@ -67,8 +67,14 @@ def linear_cg(
     terminate_cg_by_size=False,
     use_eval_tolerance=False,
 ):
+    is_vector = len(rhs.shape) == 1
+    if is_vector:
+        rhs = rhs[:, np.newaxis]
+
     if initial_guess is None:
         initial_guess = np.zeros_like(rhs)
+    elif is_vector:
+        initial_guess = initial_guess[:, np.newaxis]
 
     if preconditioner is None:
 
@@ -91,10 +97,6 @@ def linear_cg(
             "Getting a tridiagonalization larger than the number of CG iterations run is not possible!"
         )
 
-    is_vector = len(rhs.shape) == 1
-    if is_vector:
-        rhs = rhs[:, np.newaxis]
-
     num_rows = rhs.size
     n_iter = min(max_iter, num_rows) if terminate_cg_by_size else max_iter
     n_tridiag_iter = min(max_tridiag_iter, num_rows)
@@ -263,6 +265,8 @@ def linear_cg(
 
     # Un-normalize
     result = result * rhs_norm
+    if is_vector:
+        result = result[:, 0]
     if not tolerance_reached and n_iter > 0:
         raise RuntimeError(
             f"CG terminated in {k + 1} iterations with average residual norm {residual_norm.mean()}"
-- 
2.43.0


From 813d9e616e47db5f39da00483d12c73c0855d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 73/81] fix: solve for several columns and with a
 preconditioner in linear_cg

---
 pymc_extras/utils/linear_cg.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/utils/linear_cg.py b/pymc_extras/utils/linear_cg.py
index fd2a067..63e1e9c 100644
--- a/pymc_extras/utils/linear_cg.py
+++ b/pymc_extras/utils/linear_cg.py
@@ -25,6 +25,14 @@ def masked_fill(vector, mask, fill_value):
     return vector
 
 
+def column_dot(x, y):
+    return np.sum(x * y, axis=-2, keepdims=True)
+
+
+def column_norm(x):
+    return np.linalg.norm(x, 2, axis=-2, keepdims=True)
+
+
 def linear_cg_updates(
     result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec
 ):
@@ -32,7 +40,7 @@ def linear_cg_updates(
     result = result + alpha * curr_conjugate_vec
     beta = np.copy(residual_inner_prod)
 
-    residual_inner_prod = residual.T @ precond_residual
+    residual_inner_prod = column_dot(residual, precond_residual)
 
     # safe division
     is_zero = beta < eps
@@ -97,12 +105,12 @@ def linear_cg(
             "Getting a tridiagonalization larger than the number of CG iterations run is not possible!"
         )
 
-    num_rows = rhs.size
+    num_rows = rhs.shape[-2]
     n_iter = min(max_iter, num_rows) if terminate_cg_by_size else max_iter
     n_tridiag_iter = min(max_tridiag_iter, num_rows)
 
     # norm of rhs for convergence tests
-    rhs_norm = np.linalg.norm(rhs, 2)
+    rhs_norm = column_norm(rhs)
     # make almost-zero norms be 1 (so we don't get divide-by-zero errors)
     rhs_is_zero = rhs_norm < eps
     rhs_norm = masked_fill(rhs_norm, mask=rhs_is_zero, fill_value=1)
@@ -121,7 +129,7 @@ def linear_cg(
 
     # sometimes we are lucky and preconditioner solves the system right away
     # check for convergence
-    residual_norm = np.linalg.norm(residual, 2)
+    residual_norm = column_norm(residual)
     has_converged = residual_norm < stop_updating_after
 
     if has_converged.all() and not n_tridiag:
@@ -130,7 +138,7 @@ def linear_cg(
         precond_residual = preconditioner(residual)
 
         curr_conjugate_vec = precond_residual
-        residual_inner_prod = residual.T @ precond_residual
+        residual_inner_prod = column_dot(residual, precond_residual)
 
         # define storage matrices
         np.zeros_like(residual)
@@ -156,7 +164,7 @@ def linear_cg(
     for k in range(n_iter):
         mvms = mat @ curr_conjugate_vec
         if precond:
-            alpha = curr_conjugate_vec @ mvms  # scalar
+            alpha = column_dot(curr_conjugate_vec, mvms)
 
             # safe division
             is_zero = alpha < eps
@@ -194,7 +202,7 @@ def linear_cg(
 
         else:
             # everything inside _jit_linear_cg_updates_no_precond
-            alpha = curr_conjugate_vec.T @ mvms
+            alpha = column_dot(curr_conjugate_vec, mvms)
 
             # safe division
             is_zero = alpha < eps
@@ -226,7 +234,7 @@ def linear_cg(
                 curr_conjugate_vec,
             )
 
-        residual_norm = np.linalg.norm(residual, 2)
+        residual_norm = column_norm(residual)
         residual_norm = masked_fill(residual_norm, mask=rhs_is_zero, fill_value=0)
         has_converged = residual_norm < stop_updating_after
 
-- 
2.43.0


From b8aeb28bce3445152f0955a05ecbf10cabcc89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 74/81] fix: reach the tolerance of linear_cg when the number
 of rows bounds the iterations

---
 pymc_extras/utils/linear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/utils/linear_cg.py b/pymc_extras/utils/linear_cg.py
index 63e1e9c..8b92773 100644
--- a/pymc_extras/utils/linear_cg.py
+++ b/pymc_extras/utils/linear_cg.py
@@ -239,7 +239,7 @@ def linear_cg(
         has_converged = residual_norm < stop_updating_after
 
         if (
-            k >= min(10, max_iter - 1)
+            k >= min(10, n_iter - 1)
             and bool(residual_norm.mean() < tolerance)
             and not (n_tridiag and k < min(n_tridiag_iter, max_iter - 1))
         ):
-- 
2.43.0


From 089c9343ec3a8f821106a017ea83cc7251d27800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 75/81] fix: keep the data of the fit when predictions are
 added to the InferenceData of a ModelBuilder

---
 pymc_extras/model_builder.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index b26e8ff..a4422da 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -578,6 +578,22 @@ class ModelBuilder:
         )
         return posterior_means.data
 
+    def _extend_idata(self, predictions: az.InferenceData) -> None:
+        """
+        Add predictions to the inference data of the fit.
+
+        The observed and constant data remain those of the fit. PyMC compares them with the data of the model to find
+        the deterministic variables of the posterior that have to be computed again for a prediction.
+        """
+        groups = [
+            group
+            for group in predictions.groups()
+            if group not in ("observed_data", "constant_data") or group not in self.idata
+        ]
+        self.idata.extend(
+            az.InferenceData(**{group: predictions[group] for group in groups}), join="right"
+        )
+
     def sample_prior_predictive(
         self,
         X_pred,
@@ -622,7 +638,7 @@ class ModelBuilder:
             self.set_idata_attrs(prior_pred)
             if extend_idata:
                 if self.idata is not None:
-                    self.idata.extend(prior_pred, join="right")
+                    self._extend_idata(prior_pred)
                 else:
                     self.idata = prior_pred
 
@@ -654,7 +670,7 @@ class ModelBuilder:
         with self.model:  # sample with new input data
             post_pred = pm.sample_posterior_predictive(self.idata, **kwargs)
             if extend_idata:
-                self.idata.extend(post_pred, join="right")
+                self._extend_idata(post_pred)
 
         posterior_predictive_samples = az.extract(
             post_pred, "posterior_predictive", combined=combined
-- 
2.43.0


From 7c9047a4a65e9207a5e09b7028dbbd06c669f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 76/81] fix: align the target with the rows of the predictors
 in the fit_data of a ModelBuilder

---
 pymc_extras/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index a4422da..0a15221 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -520,7 +520,7 @@ class ModelBuilder:
         self.idata = self.sample_model(**sampler_config)
 
         X_df = pd.DataFrame(X, columns=X.columns)
-        combined_data = pd.concat([X_df, y], axis=1)
+        combined_data = pd.concat([X_df, y.set_axis(X_df.index)], axis=1)
         assert all(combined_data.columns), "All columns must have non-empty names"
         with warnings.catch_warnings():
             warnings.filterwarnings(
-- 
2.43.0


From 1bd524241ad4eabe10c6feae81b676b69dc536fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 77/81] fix: load models whose configuration has lists or
 tuples

---
 pymc_extras/model_builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 0a15221..73b5d72 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -405,7 +405,7 @@ class ModelBuilder:
         for key in model_config:
             if isinstance(model_config[key], dict):
                 for sub_key in model_config[key]:
-                    if isinstance(model_config[key][sub_key], list):
+                    if isinstance(model_config[key][sub_key], list | tuple):
                         # Check if "dims" key to convert it to tuple
                         if sub_key == "dims":
                             model_config[key][sub_key] = tuple(model_config[key][sub_key])
@@ -774,8 +774,15 @@ class ModelBuilder:
         >>> model.id
         '0123456789abcdef'
         """
+        # Lists and tuples are formatted as they are when the model is loaded
+        model_config = self._model_config_formatting(
+            {
+                key: value.copy() if isinstance(value, dict) else value
+                for key, value in self.model_config.items()
+            }
+        )
         hasher = hashlib.sha256()
-        hasher.update(str(self.model_config.values()).encode())
+        hasher.update(str(model_config.values()).encode())
         hasher.update(self.version.encode())
         hasher.update(self._model_type.encode())
         return hasher.hexdigest()[:16]
-- 
2.43.0


From b498a92a535db9eb3482a6c7412ece6c29f35908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 78/81] fix: fit and predict a single observation with
 LinearModel

---
 pymc_extras/linearmodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/linearmodel.py b/pymc_extras/linearmodel.py
index b1f78b2..5f53a78 100644
--- a/pymc_extras/linearmodel.py
+++ b/pymc_extras/linearmodel.py
@@ -95,10 +95,14 @@ class LinearModel(ModelBuilder):
         self._data_setter(X, y)
 
     def _data_setter(self, X: pd.DataFrame, y: pd.DataFrame | pd.Series | None = None):
+        def as_vector(data):
+            data = np.asarray(data)
+            return data.squeeze(axis=1) if data.ndim == 2 else data
+
         with self.model:
-            pm.set_data({"x": X.squeeze()})
+            pm.set_data({"x": as_vector(X)})
             if y is not None:
-                pm.set_data({"y_data": y.squeeze()})
+                pm.set_data({"y_data": as_vector(y)})
 
     def _generate_and_preprocess_model_data(
         self, X: pd.DataFrame | pd.Series, y: pd.Series
-- 
2.43.0


From e977331c41359fdbd084caff7cb98f70ab036eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 79/81] fix: print every dimension of variables that have a
 dimension twice

---
 pymc_extras/printing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/printing.py b/pymc_extras/printing.py
index 8409e34..0418954 100644
--- a/pymc_extras/printing.py
+++ b/pymc_extras/printing.py
@@ -46,8 +46,8 @@ def _extract_dim_value(var: SharedVariable | Constant) -> np.ndarray:
 def dims_expression(model: Model, var: Variable) -> str:
     """Get the dimensions of a variable in a human-readable format."""
     if (dims := model.named_vars_to_dims.get(var.name)) is not None:
-        dim_sizes = {dim: _extract_dim_value(model.dim_lengths[dim]) for dim in dims}
-        return " × ".join(f"{dim}[{dim_size}]" for dim, dim_size in dim_sizes.items())
+        dim_sizes = [(dim, _extract_dim_value(model.dim_lengths[dim])) for dim in dims]
+        return " × ".join(f"{dim}[{dim_size}]" for dim, dim_size in dim_sizes)
     else:
         dim_sizes = list(var.shape.eval(mode=Mode(linker="py", optimizer="fast_compile")))
         return f"[{', '.join(map(str, dim_sizes))}]" if dim_sizes else ""
-- 
2.43.0


From ca1dede27808c317e42f6cd81b7217979c6574eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 80/81] fix: print dimensions whose length depends on data

---
 pymc_extras/printing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/printing.py b/pymc_extras/printing.py
index 0418954..617a566 100644
--- a/pymc_extras/printing.py
+++ b/pymc_extras/printing.py
@@ -36,11 +36,13 @@ def variable_expression(
     return var_expr
 
 
-def _extract_dim_value(var: SharedVariable | Constant) -> np.ndarray:
+def _extract_dim_value(var: Variable) -> np.ndarray:
     if isinstance(var, SharedVariable):
         return var.get_value(borrow=True)
-    else:
+    elif isinstance(var, Constant):
         return var.data
+    else:
+        return var.eval(mode=Mode(linker="py", optimizer="fast_compile"))
 
 
 def dims_expression(model: Model, var: Variable) -> str:
-- 
2.43.0


From 03497d01ff471824f115817d28d44952c747ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 81/81] fix: count negative observations in quantile_histogram
 with zero_inflation

---
 pymc_extras/distributions/histogram_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/distributions/histogram_utils.py b/pymc_extras/distributions/histogram_utils.py
index 2ba6813..1088513 100644
--- a/pymc_extras/distributions/histogram_utils.py
+++ b/pymc_extras/distributions/histogram_utils.py
@@ -37,8 +37,8 @@ def quantile_histogram(
         data = data.to_dask_array(lengths=True)
     if zero_inflation:
         zeros = (data == 0).sum(0)
-        mdata = np.ma.masked_where(data == 0, data)
-        qdata = data[data > 0]
+        mdata = np.where(data == 0, np.nan, data)
+        qdata = data[data != 0]
     else:
         mdata = data
         qdata = data.flatten()
-- 
2.43.0

