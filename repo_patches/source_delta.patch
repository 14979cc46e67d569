From 5eae8daa910b0ccfbeb0832c310b11d65e8965b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 01/35] fix: do not present earlier values when the solver
 returned no solution

A solver can end with an ok termination (e.g. a time limit) without having
written any solution. The backend then loaded whatever values its variables
held from an earlier solve as the results of this one (or failed on an
IndexError).
---
 src/calliope/backend/pyomo_backend_model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f6430cb..34f901d 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -372,8 +372,19 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             results = opt.solve(self._instance, tee=True, **solve_kwargs)
 
         termination = results.solver[0].termination_condition
-
-        if pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok:
+        # A solver can end without writing a solution (e.g. a time limit before any was found).
+        has_solution = len(results.solution) > 0 and results.solution[0].variable
+        if not has_solution and termination in (
+            pe.TerminationCondition.optimal,
+            pe.TerminationCondition.feasible,
+        ):
+            termination = pe.TerminationCondition.noSolution
+
+        if (
+            has_solution
+            and pe.TerminationCondition.to_solver_status(termination)
+            == pe.SolverStatus.ok
+        ):
             self._instance.load_solution(results.solution[0])
             results = self.load_results(solve_config.postprocessing_active)
         else:
-- 
2.43.0


From b1eec2d90004e5447ab18f94aae5a7fa21b893db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 02/35] fix: allow solving again after a solve that was
 interrupted or failed

An exception during a solve left the symbol map on the Pyomo model, so every
later solve of the same backend failed on an assertion.
---
 src/calliope/backend/pyomo_backend_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 34f901d..978fe2e 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -369,7 +369,13 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             # Ignore most of gurobipy's logging, as it's output is
             # already captured through STDOUT
             logging.getLogger("gurobipy").setLevel(logging.ERROR)
-            results = opt.solve(self._instance, tee=True, **solve_kwargs)
+            try:
+                results = opt.solve(self._instance, tee=True, **solve_kwargs)
+            finally:
+                # Pyomo leaves its symbol map on the model if it does not get to the end of the solve
+                # and would then refuse to solve the same model again.
+                if hasattr(self._instance, "._symbol_maps"):
+                    delattr(self._instance, "._symbol_maps")
 
         termination = results.solver[0].termination_condition
         # A solver can end without writing a solution (e.g. a time limit before any was found).
-- 
2.43.0


From dde662b98f79aa43523e2b7131a33a0a702e9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/35] fix: do not load the values of a failed solve onto the
 variables

---
 src/calliope/backend/pyomo_backend_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 978fe2e..3e2e48d 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -370,7 +370,10 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             # already captured through STDOUT
             logging.getLogger("gurobipy").setLevel(logging.ERROR)
             try:
-                results = opt.solve(self._instance, tee=True, **solve_kwargs)
+                # The solution is loaded below, once it is known to be usable.
+                results = opt.solve(
+                    self._instance, tee=True, load_solutions=False, **solve_kwargs
+                )
             finally:
                 # Pyomo leaves its symbol map on the model if it does not get to the end of the solve
                 # and would then refuse to solve the same model again.
-- 
2.43.0


From 2ca09236210c087428cba85e0eaefec19e7555d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 04/35] fix: solve operate mode with a single time window

---
 src/calliope/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 7461d60..8771a14 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -569,7 +569,8 @@ class Model(ModelStructure):
             iteration_results = self.backend._solve(solver_config, warmstart=False)
             iteration_results.coords["timesteps"] = new_ts
 
-        results_list.append(iteration_results.sel(timesteps=slice(windowstep, None)))
+        # The last window's results are kept in full (it may also be the only window).
+        results_list.append(iteration_results)
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
             set(
-- 
2.43.0


From 9b1ebb85980bada4f2428fe423be9c29e2a4816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 05/35] fix: rebuild operate mode windows whose defined inputs
 differ

---
 src/calliope/model.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 8771a14..e668072 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -549,6 +549,12 @@ class Model(ModelStructure):
                     "Re-building model with shorter time horizon."
                 )
                 self.build(force=True)
+            elif self._operate_window_needs_rebuild(new_inputs):
+                LOGGER.info(
+                    "Optimisation model | Defined inputs differ from the previous time window. "
+                    "Re-building model."
+                )
+                self.build(force=True)
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
@@ -581,6 +587,36 @@ class Model(ModelStructure):
         )
         return results
 
+    def _operate_window_needs_rebuild(self, new_inputs: xr.Dataset) -> bool:
+        """Check if the optimisation problem of a new time window differs in more than its parameter values.
+
+        Which math components exist depends on which inputs are defined (i.e. not NaN or infinite) and on lookups.
+        Updating parameter values in-place is not enough if these differ between time windows.
+
+        Args:
+            new_inputs (xr.Dataset): Input data slice of the new time window.
+
+        Returns:
+            bool: True if the optimisation problem has to be re-built.
+        """
+        old_inputs = self.backend.inputs
+
+        def _defined(da: xr.DataArray) -> np.ndarray:
+            return (da.notnull() & ~da.isin([np.inf, -np.inf])).values
+
+        for name, new_data in new_inputs.data_vars.items():
+            if "timesteps" not in new_data.dims or name not in old_inputs:
+                continue
+            old_data = old_inputs[name].transpose(*new_data.dims)
+            if name in self.backend.lookups:
+                # We compare the values only, since the two differ in their timesteps.
+                changed = not new_data.variable.equals(old_data.variable)
+            else:
+                changed = (_defined(new_data) != _defined(old_data)).any()
+            if changed:
+                return True
+        return False
+
     def _recalculate_storage_initial(self, results: xr.Dataset) -> xr.DataArray:
         """Calculate the initial level of storage devices for a new operate mode time slice.
 
-- 
2.43.0


From c9e8377c73bd7f9070374899238f08a2da52df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 06/35] fix: report termination conditions in the order of the
 solves

Joining a set makes the reported order depend on the hash seed.
---
 src/calliope/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index e668072..5158e29 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -579,7 +579,7 @@ class Model(ModelStructure):
         results_list.append(iteration_results)
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
-            set(
+            dict.fromkeys(
                 result.attrs["termination_condition"]
                 for result in results_list
                 if "termination_condition" in result.attrs
@@ -729,7 +729,7 @@ class Model(ModelStructure):
                 combine_attrs="no_conflicts",
             )
         results.attrs["termination_condition"] = ",".join(
-            set(
+            dict.fromkeys(
                 result.attrs["termination_condition"]
                 for result in results_list
                 if "termination_condition" in result.attrs
-- 
2.43.0


From 753d4d528ee3002c1a374c93db280cc2abe60b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 07/35] fix: keep the model unchanged when a build fails, and
 track shadow prices in rebuilt windows

A failing build left the new build configuration and operate mode window
coordinates behind, a reset to the first operate mode window that was
interrupted left the problem of a later window marked as the first, and windows
that were rebuilt while solving did not report the requested shadow prices.
---
 src/calliope/model.py | 96 ++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 5158e29..acb348d 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -289,18 +289,14 @@ class Model(ModelStructure):
             comment="Model: backend build starting",
         )
 
-        self.config = self.config.update({"build": kwargs})
+        # Nothing is changed until the build has succeeded
+        config = self.config.update({"build": kwargs})
+        new_backend, window_coords = self._build_backend(config.build)
 
-        mode = self.config.init.mode
-        if mode == "operate":
-            backend_input = self._prepare_operate_mode_inputs(self.config.build.operate)
-        else:
-            backend_input = self.inputs
-
-        self.backend = backend.get_model_backend(
-            self.config.build, backend_input, self.math.build
-        )
-        self.backend.add_optimisation_components()
+        self.config = config
+        self.inputs = self.inputs.assign_coords(window_coords)
+        self.backend = new_backend
+        self._start_window_idx = 0
 
         log_time(
             LOGGER,
@@ -311,6 +307,32 @@ class Model(ModelStructure):
 
         self._is_built = True
 
+    def _build_backend(
+        self, build_config: config_schema.Build, start_window_idx: int = 0
+    ) -> tuple[BackendModel, dict[str, xr.DataArray]]:
+        """Build a new optimisation problem, without changing the model.
+
+        Args:
+            build_config (config_schema.Build): build configuration.
+            start_window_idx (int, optional):
+                Time window for which to build the problem, if in `operate` mode. Defaults to 0.
+
+        Returns:
+            tuple[BackendModel, dict[str, xr.DataArray]]:
+                Built problem and the coordinates describing time windows (empty if not in `operate` mode).
+        """
+        backend_input = self.inputs
+        window_coords: dict[str, xr.DataArray] = {}
+        if self.config.init.mode == "operate":
+            backend_input, window_coords = self._prepare_operate_mode_inputs(
+                build_config.operate, start_window_idx
+            )
+        new_backend = backend.get_model_backend(
+            build_config, backend_input, self.math.build
+        )
+        new_backend.add_optimisation_components()
+        return new_backend, window_coords
+
     def solve(self, force: bool = False, warmstart: bool = False, **kwargs) -> None:
         """Solve the built optimisation problem.
 
@@ -464,43 +486,62 @@ class Model(ModelStructure):
         return "\n".join(info_strings)
 
     def _prepare_operate_mode_inputs(
-        self, operate_config: config_schema.BuildOperate
-    ) -> xr.Dataset:
+        self, operate_config: config_schema.BuildOperate, start_window_idx: int = 0
+    ) -> tuple[xr.Dataset, dict[str, xr.DataArray]]:
         """Slice the input data to just the length of operate mode time horizon.
 
         Args:
             operate_config (config.BuildOperate): operate mode configuration options.
+            start_window_idx (int, optional): Time window to slice. Defaults to 0.
 
         Returns:
-            xr.Dataset: Slice of input data.
+            tuple[xr.Dataset, dict[str, xr.DataArray]]:
+                Slice of input data and the coordinates describing all time windows.
         """
         if self.config.init.time_cluster is not None:
             # TODO: Consider moving this to validator in config schema
             raise exceptions.ModelError(
                 "Unable to run this model in operate (i.e. dispatch) mode because time clustering is in use"
             )
-        self.inputs.coords["windowsteps"] = pd.date_range(
-            self.inputs.timesteps[0].item(),
-            self.inputs.timesteps[-1].item(),
+        inputs = self.inputs.drop_vars(["windowsteps", "horizonsteps"], errors="ignore")
+        inputs.coords["windowsteps"] = pd.date_range(
+            inputs.timesteps[0].item(),
+            inputs.timesteps[-1].item(),
             freq=operate_config.window,
         )
-        horizonsteps = self.inputs.coords["windowsteps"] + pd.Timedelta(
+        horizonsteps = inputs.coords["windowsteps"] + pd.Timedelta(
             operate_config.horizon
         )
         # We require an offset because pandas / xarray slicing is _inclusive_ of both endpoints
         # where we only want it to be inclusive of the left endpoint.
         # Except in the last time horizon, where we want it to include the right endpoint.
         clipped_horizonsteps = horizonsteps.clip(
-            max=self.inputs.timesteps[-1] + self._TS_OFFSET
+            max=inputs.timesteps[-1] + self._TS_OFFSET
         ).drop_vars("timesteps")
-        self.inputs.coords["horizonsteps"] = clipped_horizonsteps - self._TS_OFFSET
-        sliced_inputs = self.inputs.sel(
+        inputs.coords["horizonsteps"] = clipped_horizonsteps - self._TS_OFFSET
+        sliced_inputs = inputs.sel(
             timesteps=slice(
-                self.inputs.windowsteps[self._start_window_idx],
-                self.inputs.horizonsteps[self._start_window_idx],
+                inputs.windowsteps[start_window_idx],
+                inputs.horizonsteps[start_window_idx],
             )
         )
-        return sliced_inputs
+        window_coords = {k: inputs.coords[k] for k in ["windowsteps", "horizonsteps"]}
+        return sliced_inputs, window_coords
+
+    def _build_operate_window(
+        self, start_window_idx: int, solver_config: config_schema.Solve
+    ) -> None:
+        """Build the optimisation problem of one operate mode time window.
+
+        Args:
+            start_window_idx (int): Time window for which to build the problem.
+            solver_config (config_schema.Solve): Calliope Solver configuration object.
+        """
+        new_backend, _ = self._build_backend(self.config.build, start_window_idx)
+        self.backend = new_backend
+        self._start_window_idx = start_window_idx
+        # The new problem does not know what the previous one tracked
+        self.backend.shadow_prices.track_constraints(solver_config.shadow_prices)
 
     def _solve_operate(self, solver_config: config_schema.Solve) -> xr.Dataset:
         """Solve in operate (i.e. dispatch) mode.
@@ -516,8 +557,7 @@ class Model(ModelStructure):
         """
         if self._start_window_idx != 0:
             LOGGER.info("Optimisation model | Resetting model to first time window.")
-            self._start_window_idx = 0
-            self.build(force=True)
+            self._build_operate_window(0, solver_config)
 
         LOGGER.info("Optimisation model | Running first time window.")
 
@@ -548,13 +588,13 @@ class Model(ModelStructure):
                     "Optimisation model | Reaching the end of the timeseries. "
                     "Re-building model with shorter time horizon."
                 )
-                self.build(force=True)
+                self._build_operate_window(idx + 1, solver_config)
             elif self._operate_window_needs_rebuild(new_inputs):
                 LOGGER.info(
                     "Optimisation model | Defined inputs differ from the previous time window. "
                     "Re-building model."
                 )
-                self.build(force=True)
+                self._build_operate_window(idx + 1, solver_config)
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
-- 
2.43.0


From 2db781524bb123ef5d628cf67be1d7814d59dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 08/35] fix: leave the model as it was when a solve fails or is
 interrupted

The solve options of a failed call stayed in the configuration, and an
interruption during postprocessing left the new termination condition next to
the earlier results.
---
 src/calliope/model.py | 62 ++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index acb348d..8442820 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -369,8 +369,45 @@ class Model(ModelStructure):
                 "the results to be overwritten with a new run."
             )
 
+        previous_config = self.config
         self.config = self.config.update({"solve": kwargs})
+        try:
+            results = self._solve_mode(warmstart)
+            math = self.math.update({"build": self.backend.math.model_dump()})
+            runtime = self.runtime.update(
+                {"termination_condition": results.attrs.pop("termination_condition")}
+            )
+            log_time(
+                LOGGER,
+                runtime.timings,
+                "postprocess_complete",
+                time_since_solve_start=True,
+                comment="Postprocessing: ended",
+            )
+            log_time(
+                LOGGER,
+                runtime.timings,
+                "solve_complete",
+                time_since_solve_start=True,
+                comment="Backend: model solve completed",
+            )
+        except BaseException:
+            # A solve that did not get to its end leaves the model as it was.
+            self.config = previous_config
+            raise
+
+        self.math, self.runtime, self.results = math, runtime, results
+        self._is_solved = True
 
+    def _solve_mode(self, warmstart: bool) -> xr.Dataset:
+        """Solve the built optimisation problem in the configured mode.
+
+        Args:
+            warmstart (bool): See `solve`.
+
+        Returns:
+            xr.Dataset: Results dataset.
+        """
         self.backend.shadow_prices.track_constraints(self.config.solve.shadow_prices)
 
         mode = self.config.init.mode
@@ -400,30 +437,7 @@ class Model(ModelStructure):
             results = self._apply_zero_threshold(
                 results, self.config.solve.zero_threshold
             )
-
-        self.math = self.math.update({"build": self.backend.math.model_dump()})
-        self.runtime = self.runtime.update(
-            {"termination_condition": results.attrs.pop("termination_condition")}
-        )
-
-        log_time(
-            LOGGER,
-            self.runtime.timings,
-            "postprocess_complete",
-            time_since_solve_start=True,
-            comment="Postprocessing: ended",
-        )
-
-        log_time(
-            LOGGER,
-            self.runtime.timings,
-            "solve_complete",
-            time_since_solve_start=True,
-            comment="Backend: model solve completed",
-        )
-        self.results = results
-
-        self._is_solved = True
+        return results
 
     def run(self, force_rerun=False):
         """Run the model.
-- 
2.43.0


From 86a3d71f862bcef299a476b078a2a957660b6b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 09/35] fix: do not limit the baseline of a new SPORES run by
 the cost of an earlier one

---
 src/calliope/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 8442820..ac9b814 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -704,10 +704,17 @@ class Model(ModelStructure):
         )
 
         spores_config: config_schema.SolveSpores = solver_config.spores
+        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
 
         latest_spore: int = 0
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
+            if self.backend.get_parameter("spores_baseline_cost").notnull().any():
+                # The baseline must not be limited by the cost of an earlier SPORES run.
+                self.backend.update_input(
+                    "spores_baseline_cost",
+                    self.inputs.get("spores_baseline_cost", base_cost_default),
+                )
             self.backend.set_objective(self.config.build.objective)
             baseline_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(baseline_results, spores_config, 0)
@@ -741,7 +748,6 @@ class Model(ModelStructure):
                 "Ensure your baseline model can solve successfully by running it in `base` mode."
             )
 
-        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
         constraining_cost = baseline_results.get(
             "spores_baseline_cost_tracked", self.inputs.get("spores_baseline_cost")
         )
-- 
2.43.0


From 3664b857c78e7d71f050ece45b555340f592677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 10/35] fix: do not lose components of the problem when
 updating an input fails part way

An interruption (or an error) while components were re-built left the
optimisation problem without them; later solves failed or ignored them.
---
 src/calliope/backend/backend_model.py | 32 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index e8ae0a5..8890019 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1250,7 +1250,6 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             )
         new_input_da = new_values.broadcast_like(input_da).fillna(input_da)
         new_input_da.attrs = input_da.attrs
-        self.inputs[name] = new_input_da
 
         if (
             (not dataset_da.shape and new_values.shape)
@@ -1259,9 +1258,6 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             or obj_type == "lookups"
             or not mutable
         ):
-            self.delete_component(name, obj_type)
-            getattr(self, f"add_{obj_type_singular}")(name, new_input_da, math)
-
             refs_to_update = self._find_all_references(dataset_da.attrs["references"])
 
             if refs_to_update:
@@ -1271,15 +1267,37 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                     f"The optimisation problem components {sorted(refs_to_update)} will be re-built.",
                     "info",
                 )
-            self._rebuild_references(refs_to_update)
+            try:
+                self._replace_input(name, new_input_da, refs_to_update)
+            except BaseException:
+                # Do not leave the optimisation problem with missing components
+                self._replace_input(name, input_da, refs_to_update)
+                raise
 
             if self._has_verbose_strings:
                 self.verbose_strings()
             update_mutable = False
         else:
+            self.inputs[name] = new_input_da
             update_mutable = True
         return dataset_da, new_values, update_mutable
 
+    def _replace_input(
+        self, name: str, values: xr.DataArray, references: set[str]
+    ) -> None:
+        """Replace an input array and rebuild all optimisation problem components that refer to it.
+
+        Args:
+            name (str): Name of the input array to replace.
+            values (xr.DataArray): New input data.
+            references (set[str]): Names of optimisation problem components to rebuild.
+        """
+        math = self.math.find(name, subset={"parameters", "lookups"})
+        self.inputs[name] = values
+        self.delete_component(name, math._group)
+        getattr(self, f"add_{math._group.removesuffix('s')}")(name, values, math)
+        self._rebuild_references(references)
+
     @abstractmethod
     def update_variable_bounds(
         self,
@@ -1470,7 +1488,9 @@ class BackendModel(BackendModelGenerator, Generic[T]):
         for component in typing.get_args(ORDERED_COMPONENTS_T):
             # Rebuild references in the order they are found in the backend dataset
             # which should correspond to the order they were added to the optimisation problem.
-            refs = [k for k in getattr(self, component).data_vars if k in references]
+            # (in which they are also found in the math).
+            ordered_items = self._sorted_by_order(self.math[component].root)
+            refs = [name for name, _ in ordered_items if name in references]
             for ref in refs:
                 self.delete_component(ref, component)
                 def_ = self.math[component][ref]
-- 
2.43.0


From 386b73574ce5cc3fe6050920ca357d3da3d93004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 11/35] fix: do not report the duals of an earlier solve

---
 src/calliope/backend/pyomo_backend_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 3e2e48d..18f806c 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -394,6 +394,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             and pe.TerminationCondition.to_solver_status(termination)
             == pe.SolverStatus.ok
         ):
+            # Duals of an earlier solve must not outlive it if this solve does not provide any.
+            self._instance.dual.clear()
             self._instance.load_solution(results.solution[0])
             results = self.load_results(solve_config.postprocessing_active)
         else:
-- 
2.43.0


From 5c30cc02b575f9b9fdc22217ea60de7db7ec8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 12/35] fix: select the variable elements to fix as documented

---
 src/calliope/backend/pyomo_backend_model.py | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 18f806c..3631a58 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -501,19 +501,36 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         self, name: str, where: xr.DataArray | None = None
     ) -> None:
         variable_da = self.get_variable(name)
-        where_da = variable_da.notnull()
-        if where is not None:
-            where_da = where_da & where.fillna(False)
+        where_da = self._where_variable(variable_da, where)
         self._apply_func(self._fix_pyomo_variable, where_da, 1, variable_da)
 
     def unfix_variable(  # noqa: D102, override
         self, name: str, where: xr.DataArray | None = None
     ) -> None:
         variable_da = self.get_variable(name)
+        where_da = self._where_variable(variable_da, where)
+        self._apply_func(self._unfix_pyomo_variable, where_da, 1, variable_da)
+
+    @staticmethod
+    def _where_variable(
+        variable_da: xr.DataArray, where: xr.DataArray | None
+    ) -> xr.DataArray:
+        """Get the boolean array of the variable elements that are selected by a user-defined mask.
+
+        Args:
+            variable_da (xr.DataArray): Variable array.
+            where (xr.DataArray | None):
+                Boolean array or a float equivalent, where NaN is used instead of False.
+                Elements for which it has no entry are not selected.
+
+        Returns:
+            xr.DataArray: Boolean array with the same shape as the variable array.
+        """
         where_da = variable_da.notnull()
         if where is not None:
-            where_da = where_da & where.fillna(False)
-        self._apply_func(self._unfix_pyomo_variable, where_da, 1, variable_da)
+            where = where.reindex_like(variable_da).fillna(False).astype(bool)
+            where_da = where_da & where
+        return where_da
 
     @property
     def has_integer_or_binary_variables(self) -> bool:  # noqa: D102, override
-- 
2.43.0


From 66a8e115b5631ff4f29992d378397465819946ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 13/35] fix: keep fixed values and updated bounds of variables
 that an input update rebuilds

---
 src/calliope/backend/pyomo_backend_model.py | 53 ++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 3631a58..3503a5e 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -449,10 +449,40 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def update_input(  # noqa: D102, override
         self, name: str, new_values: xr.DataArray | SupportsFloat
     ) -> None:
-        orig, new, update = self._update_input(name, new_values, mutable=True)
+        variables = self.variables
+        try:
+            orig, new, update = self._update_input(name, new_values, mutable=True)
+        finally:
+            self._restore_variables(variables)
         if update:
             self._apply_func(self._update_pyomo_param, new.notnull(), 1, orig, new)
 
+    def _restore_variables(self, previous: xr.Dataset) -> None:
+        """Carry over what has been set on variables that have been rebuilt since: solution values, fixing, and bounds.
+
+        Args:
+            previous (xr.Dataset): Arrays of variables from before the rebuild.
+        """
+        for name, old_da in previous.data_vars.items():
+            new_da = self.variables.get(name, xr.DataArray())
+            if new_da.variable is old_da.variable or set(new_da.dims) != set(
+                old_da.dims
+            ):
+                continue
+            bounds = self.math.variables[name].bounds
+            self._apply_func(
+                self._restore_pyomo_variable,
+                new_da.notnull() & old_da.notnull(),
+                1,
+                new_da,
+                old_da,
+                bounds=[
+                    key
+                    for key, bound in [("lb", bounds.min), ("ub", bounds.max)]
+                    if not isinstance(bound, str)
+                ],
+            )
+
     def update_variable_bounds(  # noqa: D102, override
         self,
         name: str,
@@ -502,6 +532,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> None:
         variable_da = self.get_variable(name)
         where_da = self._where_variable(variable_da, where)
+        values = self._apply_func(self._from_pyomo_param, where_da, 1, variable_da)
+        if (where_da & values.isnull()).any():
+            raise BackendError(
+                "Cannot fix variable values without already having solved the model successfully."
+            )
         self._apply_func(self._fix_pyomo_variable, where_da, 1, variable_da)
 
     def unfix_variable(  # noqa: D102, override
@@ -606,6 +641,22 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         """
         setattr(orig, bound, new)
 
+    def _restore_pyomo_variable(
+        self, new: ObjVariable, old: ObjVariable, *, bounds: list[str]
+    ) -> None:
+        """Utility function to set a rebuilt pyomo variable to the state of the one it replaces.
+
+        Args:
+            new (ObjVariable): Rebuilt pyomo variable.
+            old (ObjVariable): Pyomo variable it replaces.
+            bounds (list[str]): Bounds ("lb", "ub") to carry over, i.e. those that are not set by parameters.
+        """
+        if new is old:
+            return
+        for bound in bounds:
+            setattr(new, bound, getattr(old, bound))
+        new.value, new.fixed = old.value, old.fixed
+
     def _fix_pyomo_variable(self, orig: ObjVariable) -> None:
         """Utility function to fix a pyomo variable to its value in the optimisation model solution.
 
-- 
2.43.0


From 221cf5834bd00ea342addb5ec43760a65f9d443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 14/35] fix: allow updating lookups

---
 src/calliope/backend/pyomo_backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 3503a5e..dc9c401 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -439,7 +439,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def delete_component(  # noqa: D102, override
         self, key: str, component_type: ALL_COMPONENTS_T
     ) -> None:
-        component_dict = getattr(self._instance, component_type)
+        # Lookups are not represented in the pyomo instance
+        component_dict = getattr(self._instance, component_type, {})
         if key in component_dict:
             del component_dict[key]
 
-- 
2.43.0


From 51f2464b2f8ac21f0b49bc16b3054ddfdb9667b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 15/35] fix: apply input updates with fewer dimensions or
 entries to the elements they are for

---
 src/calliope/backend/pyomo_backend_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index dc9c401..56dddc0 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -456,6 +456,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         finally:
             self._restore_variables(variables)
         if update:
+            new = new.broadcast_like(orig).reindex_like(orig)
             self._apply_func(self._update_pyomo_param, new.notnull(), 1, orig, new)
 
     def _restore_variables(self, previous: xr.Dataset) -> None:
-- 
2.43.0


From a533ecac0c1b27c2367541568ad5928b781468e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 16/35] fix: keep boolean inputs boolean when updating some of
 their entries

---
 src/calliope/backend/backend_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 8890019..e79adee 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1249,6 +1249,9 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 "info",
             )
         new_input_da = new_values.broadcast_like(input_da).fillna(input_da)
+        if input_da.dtype.kind == "b":
+            # Broadcasting and filling changes the type of boolean arrays
+            new_input_da = new_input_da.astype(bool)
         new_input_da.attrs = input_da.attrs
 
         if (
-- 
2.43.0


From a293fa7eb5235797c8202a8d60f1528b6cc3903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 17/35] fix: rebuild components when an input update changes
 where they apply

---
 src/calliope/backend/backend_model.py     | 25 +++++++++++++++++++++++
 src/calliope/backend/expression_parser.py | 11 ++++++++++
 src/calliope/backend/where_parser.py      |  2 ++
 3 files changed, 38 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index e79adee..6b322ea 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1258,6 +1258,7 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             (not dataset_da.shape and new_values.shape)
             or missing_dims_in_orig_vals
             or (dataset_da.isnull() & new_values.notnull()).any()
+            or self._changes_components(name, input_da, new_input_da)
             or obj_type == "lookups"
             or not mutable
         ):
@@ -1285,6 +1286,30 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             update_mutable = True
         return dataset_da, new_values, update_mutable
 
+    def _changes_components(
+        self, name: str, old: xr.DataArray, new: xr.DataArray
+    ) -> bool:
+        """Check whether new values of an input change which component elements are built.
+
+        That is the case if `where` strings evaluate differently, since an element becomes
+        (un)defined or the values themselves are used.
+
+        Args:
+            name (str): Name of the input.
+            old (xr.DataArray): Old values of the input.
+            new (xr.DataArray): New values of the input.
+
+        Returns:
+            bool: True if components need rebuilding, False if updating the values suffices.
+        """
+        used_by_value = name in self._dataset.encoding.get("used_by_value", set())
+        if used_by_value and not new.equals(old):
+            return True
+        old_defined, new_defined = (
+            da.notnull() & (da != np.inf) & (da != -np.inf) for da in (old, new)
+        )
+        return bool((old_defined != new_defined).any())
+
     def _replace_input(
         self, name: str, values: xr.DataArray, references: set[str]
     ) -> None:
diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index fb6712e..fc4ea80 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -92,6 +92,16 @@ class EvalArrayOrMath(EvalString):
         The purpose of this is to be able to access the string/number value whether we query the array name or its data.
         """
 
+    def _mark_as_used_by_value(self, name: str) -> None:
+        """Mark an input whose values are baked in to components, so these need rebuilding when the values change.
+
+        Args:
+            name (str): Name of the parameter or lookup.
+        """
+        self.eval_attrs.backend_data.encoding.setdefault(
+            "used_by_value", set()
+        ).add(name)
+
     # Math strings evaluate to strings.
     @overload
     def eval(
@@ -798,6 +808,7 @@ class EvalUnslicedComponent(EvalArrayOrMath):
                 self.eval_attrs.as_values
                 and evaluated.attrs["obj_type"] == "parameters"
             ):
+                self._mark_as_used_by_value(self.name)
                 evaluated = self.eval_attrs.input_data[self.name]
         except KeyError:
             # Special case for dimensions that have not been defined yet as arrays.
diff --git a/src/calliope/backend/where_parser.py b/src/calliope/backend/where_parser.py
index bcf76ab..94eb2ec 100644
--- a/src/calliope/backend/where_parser.py
+++ b/src/calliope/backend/where_parser.py
@@ -184,6 +184,8 @@ class InputArrayParser(expression_parser.EvalArrayOrMath):
     def as_array(self) -> xr.DataArray:  # noqa: D102, override
         self.eval_attrs.references.add(self.array_name)
         da = self.eval_attrs.input_data.get(self.array_name, xr.DataArray(False))
+        if not self.eval_attrs.apply_where:
+            self._mark_as_used_by_value(self.array_name)
         if self.eval_attrs.apply_where and da.dtype.kind != "b":
             da = da.notnull() & (da != np.inf) & (da != -np.inf)
         elif da.isnull().any() and pd.notnull(
-- 
2.43.0


From 66bb82cf8402fdf416c2d05ea86d93a2fb46bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 18/35] fix: keep boolean lookups boolean when updating one
 that had no data

---
 src/calliope/backend/backend_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 6b322ea..0dfa86f 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1249,9 +1249,9 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 "info",
             )
         new_input_da = new_values.broadcast_like(input_da).fillna(input_da)
-        if input_da.dtype.kind == "b":
+        if input_da.dtype.kind == "b" or math.dtype == "bool":
             # Broadcasting and filling changes the type of boolean arrays
-            new_input_da = new_input_da.astype(bool)
+            new_input_da = new_input_da.fillna(False).astype(bool)
         new_input_da.attrs = input_da.attrs
 
         if (
-- 
2.43.0


From 6d4fdb527238867e4034633f9b20e6a8cb3c7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 19/35] fix: apply new variable bounds to the elements they are
 for

---
 src/calliope/backend/pyomo_backend_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 56dddc0..ed2ad33 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -520,12 +520,13 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                     f"New `{bound_name}` bounds will be broadcast along the {missing_dims_in_new_vals} dimension(s).",
                     "info",
                 )
+            bound_da = bound_da.broadcast_like(variable_da).reindex_like(variable_da)
             self._apply_func(
                 self._update_pyomo_variable,
-                variable_da.notnull() & xr.DataArray(new_bounds).notnull(),
+                variable_da.notnull() & bound_da.notnull(),
                 1,
                 variable_da,
-                xr.DataArray(new_bounds),
+                bound_da,
                 bound=translator[bound_name],
             )
 
-- 
2.43.0


From 351ddfb446cd706b0a009e9442934c22714ffb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 20/35] fix: do not track technologies in SPORES whose tracking
 parameter is false

---
 src/calliope/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index ac9b814..5303c78 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -955,11 +955,9 @@ class Model(ModelStructure):
         }
 
         # Filter for technologies of interest
+        tracked = self.inputs.get(spores_config.tracking_parameter, xr.DataArray(True))
         spores_techs = (
-            self.inputs.get(
-                spores_config.tracking_parameter, xr.DataArray(True)
-            ).notnull()
-            & self.inputs.definition_matrix
+            tracked.fillna(False).astype(bool) & self.inputs.definition_matrix
         )
         old_score = self.backend.get_parameter(
             "spores_score", as_backend_objs=False
-- 
2.43.0


From 0c6838e39834649528020abac911deeef16eb516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 21/35] fix: refuse a SPORES restart before changing anything,
 and when the scores are not stored

---
 src/calliope/model.py | 55 +++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 5303c78..bcb26d0 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -698,16 +698,43 @@ class Model(ModelStructure):
         Returns:
             xr.Dataset: Results dataset.
         """
+        spores_config: config_schema.SolveSpores = solver_config.spores
+        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
+        restart = spores_config.use_latest_results and "spores" in self.results.dims
+
+        latest_spore: int = 0
+        latest_score = xr.DataArray()
+        if restart:
+            latest_spore = self.results.spores.max().item()
+            baseline_results = self.results.sel(spores=latest_spore).drop_vars("spores")
+            latest_score = baseline_results.get("spores_score_cumulative", latest_score)
+            if latest_spore > 0 and latest_score.isnull().all():
+                raise exceptions.ModelError(
+                    f"Cannot restart SPORES from SPORE {latest_spore} as its scores are not in the results. "
+                    "This issue may be caused by deactivated postprocessing."
+                )
+
+        if latest_spore >= spores_config.number:
+            raise exceptions.ModelError(
+                f"Cannot restart SPORES from SPORE {latest_spore} as it is greater or equal "
+                f"to the configured number of SPORES to run ({spores_config.number})."
+            )
+
         LOGGER.info("Optimisation model | Resetting SPORES parameters.")
         self.backend.update_input(
             "spores_score", self.math.build.parameters["spores_score"].default
         )
 
-        spores_config: config_schema.SolveSpores = solver_config.spores
-        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
-
-        latest_spore: int = 0
-        if not spores_config.use_latest_results:
+        if restart:
+            LOGGER.info(
+                f"Optimisation model | Restarting SPORES from SPORE {latest_spore} results."
+            )
+            if latest_score.notnull().any():
+                self.backend.update_input("spores_score", latest_score)
+        elif spores_config.use_latest_results:
+            LOGGER.info("Optimisation model | Using existing baseline model results.")
+            baseline_results = self.results.copy()
+        else:
             LOGGER.info("Optimisation model | Running baseline model.")
             if self.backend.get_parameter("spores_baseline_cost").notnull().any():
                 # The baseline must not be limited by the cost of an earlier SPORES run.
@@ -718,24 +745,6 @@ class Model(ModelStructure):
             self.backend.set_objective(self.config.build.objective)
             baseline_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(baseline_results, spores_config, 0)
-        elif "spores" in self.results.dims:
-            latest_spore = self.results.spores.max().item()
-            LOGGER.info(
-                f"Optimisation model | Restarting SPORES from SPORE {latest_spore} results."
-            )
-            baseline_results = self.results.sel(spores=latest_spore).drop_vars("spores")
-            self.backend.update_input(
-                "spores_score", baseline_results.spores_score_cumulative
-            )
-        else:
-            LOGGER.info("Optimisation model | Using existing baseline model results.")
-            baseline_results = self.results.copy()
-
-        if latest_spore >= spores_config.number:
-            raise exceptions.ModelError(
-                f"Cannot restart SPORES from SPORE {latest_spore} as it is greater or equal "
-                f"to the configured number of SPORES to run ({spores_config.number})."
-            )
 
         spore_range: list[int] = [
             i for i in range(latest_spore + 1, spores_config.number + 1)
-- 
2.43.0


From a933047a08e5e0450499e94d931a36e02346e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 22/35] fix: save NetCDF files completely or not at all, and do
 not load parts of a file as if it were complete

---
 src/calliope/io.py    | 28 ++++++++++++++++++++++++----
 src/calliope/model.py | 27 ++++++++++++++++++---------
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 9b01d6f..8ac3819 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -2,9 +2,12 @@
 # Licensed under the Apache 2.0 License (see LICENSE file).
 """Functions to read and save model results and configuration."""
 
+import contextlib
 import importlib.resources
 import logging
 import os
+import tempfile
+from collections.abc import Iterator
 from copy import deepcopy
 from io import StringIO
 from pathlib import Path
@@ -33,13 +36,14 @@ def read_netcdf(
 ) -> dict[Literal["inputs", "results", "attrs"], xr.Dataset]:
     """Read model_data from NetCDF file."""
     datasets: dict[Literal["inputs", "results", "attrs"], xr.Dataset] = {}
+    with netCDF4.Dataset(Path(path).expanduser()) as file:
+        available_groups = set(file.groups)
     for group in ["inputs", "results", "attrs"]:
-        try:
-            with xr.open_dataset(path, group=group) as model_data:
-                model_data.load()
-        except OSError:
+        if group not in available_groups:
             datasets[group] = xr.Dataset()
             continue
+        with xr.open_dataset(path, group=group) as model_data:
+            model_data.load()
         _deserialise(model_data.attrs)
         for var in model_data.data_vars.values():
             _deserialise(var.attrs)
@@ -133,6 +137,22 @@ def _deserialise(attrs: dict) -> None:
         attrs[attr] = set(attrs[attr])
 
 
+@contextlib.contextmanager
+def replace_file(path: str | Path) -> Iterator[Path]:
+    """Write a file completely before it appears at the given path.
+
+    Yields a temporary path to write to, which only replaces `path` if writing did not fail.
+    An existing file at `path` is left as it is until then.
+    """
+    path = Path(path).expanduser().resolve()
+    with tempfile.TemporaryDirectory(
+        dir=path.parent, prefix=f".{path.name}.", ignore_cleanup_errors=True
+    ) as temp_dir:
+        temp_path = Path(temp_dir) / path.name
+        yield temp_path
+        os.replace(temp_path, path)
+
+
 def save_netcdf(
     model_data: xr.Dataset,
     group_name: str,
diff --git a/src/calliope/model.py b/src/calliope/model.py
index bcb26d0..fe417fe 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -454,9 +454,12 @@ class Model(ModelStructure):
 
     def to_netcdf(self, path):
         """Save complete model data (inputs and, if available, results) to a NetCDF file at the given `path`."""
-        io.save_netcdf(self.inputs, "inputs", "w", path)
-        io.save_netcdf(self.results, "results", "a", path)
-        io.save_netcdf(xr.Dataset(attrs=self.dump_all_attrs()), "attrs", "a", path)
+        with io.replace_file(path) as temp_path:
+            io.save_netcdf(self.inputs, "inputs", "w", temp_path)
+            io.save_netcdf(self.results, "results", "a", temp_path)
+            io.save_netcdf(
+                xr.Dataset(attrs=self.dump_all_attrs()), "attrs", "a", temp_path
+            )
 
     def to_csv(
         self, path: str | Path, dropna: bool = True, allow_overwrite: bool = False
@@ -834,14 +837,20 @@ class Model(ModelStructure):
             LOGGER.info(f"Optimisation model | Saving SPORE {spore} to file.")
             outpath = spores_config.save_per_spore_path / f"spore_{spore}.nc"
 
-            io.save_netcdf(results.expand_dims(spores=[spore]), "results", "w", outpath)
-            io.save_netcdf(
-                xr.Dataset(attrs=self.dump_all_attrs()), "attrs", "a", outpath
-            )
-            if spore == 0:
+            with io.replace_file(outpath) as temp_path:
+                io.save_netcdf(
+                    results.expand_dims(spores=[spore]), "results", "w", temp_path
+                )
                 io.save_netcdf(
-                    self.inputs.expand_dims(spores=[spore]), "inputs", "a", outpath
+                    xr.Dataset(attrs=self.dump_all_attrs()), "attrs", "a", temp_path
                 )
+                if spore == 0:
+                    io.save_netcdf(
+                        self.inputs.expand_dims(spores=[spore]),
+                        "inputs",
+                        "a",
+                        temp_path,
+                    )
 
         else:
             LOGGER.info(
-- 
2.43.0


From 063a08adc623bb07c93894172d7f84f1cf543e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 23/35] fix: save each SPORE that has a solution

---
 src/calliope/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index fe417fe..10d80e2 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -824,7 +824,8 @@ class Model(ModelStructure):
         if spores_config.save_per_spore_path is None:
             return None
 
-        if results.attrs["termination_condition"] in ["optimal", "feasible"]:
+        # A solver may also return a solution without having reached e.g. optimality.
+        if results:
             log_time(
                 LOGGER,
                 self.runtime.timings,
-- 
2.43.0


From f6e327dfb5c364290ed6673240d48f9bf7409bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 24/35] fix: load missing text, attributes of coordinates and
 the solved status as they were saved

Missing entries of text lookups were loaded as empty strings, coordinates kept the bookkeeping
attributes of the file and a model saved before it was solved was loaded as solved.
---
 src/calliope/io.py    | 6 ++++--
 src/calliope/model.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 8ac3819..7be232b 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -29,6 +29,8 @@ logger = logging.getLogger(__name__)
 CONFIG_DIR = importlib.resources.files("calliope") / "config"
 YAML_INDENT = 2
 YAML_BLOCK_SEQUENCE_INDENT = 0
+# Strings cannot be NaN in NetCDF files
+MISSING_STRING = "<missing>"
 
 
 def read_netcdf(
@@ -45,7 +47,7 @@ def read_netcdf(
         with xr.open_dataset(path, group=group) as model_data:
             model_data.load()
         _deserialise(model_data.attrs)
-        for var in model_data.data_vars.values():
+        for var in model_data.variables.values():
             _deserialise(var.attrs)
         datasets[group] = model_data
     return datasets
@@ -173,7 +175,7 @@ def save_netcdf(
 
     encoding: dict[str, dict] = {
         k: (
-            {"zlib": False, "_FillValue": None}
+            {"zlib": False, "_FillValue": MISSING_STRING if v.isnull().any() else None}
             if v.dtype.kind in ["U", "O"]
             else {"zlib": False, "_FillValue": None, "dtype": "int8"}
             if v.dtype.kind == "b"
diff --git a/src/calliope/model.py b/src/calliope/model.py
index 10d80e2..8b3ff7a 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -41,10 +41,15 @@ def read_netcdf(path: str | Path, **kwargs) -> Model:
         Model: Calliope Model instance.
     """
     model_data = io.read_netcdf(path)
+    attrs = CalliopeAttrs(**model_data["attrs"].attrs)
+    # Files of models that have not been solved contain a group of empty results
+    is_solved = (
+        bool(model_data["results"]) or attrs.runtime.termination_condition is not None
+    )
     return Model(
         model_data["inputs"],
-        CalliopeAttrs(**model_data["attrs"].attrs),
-        model_data["results"],
+        attrs,
+        model_data["results"] if is_solved else None,
         **kwargs,
     )
 
-- 
2.43.0


From 049bbe15b19bfd29338f3fe7a98be6c8809c6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 25/35] fix: restore all attributes after a save that cannot
 serialise one of them

---
 src/calliope/io.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 7be232b..9353b68 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -164,14 +164,7 @@ def save_netcdf(
 ):
     """Save the model to a netCDF file."""
     original_model_data_attrs = deepcopy(model_data.attrs)
-    for key, value in kwargs.items():
-        model_data.attrs[key] = value
-
-    _serialise(model_data.attrs)
-    for var in model_data.data_vars.values():
-        _serialise(var.attrs)
-    for var in model_data.coords.values():
-        _serialise(var.attrs)
+    original_var_attrs = {k: deepcopy(v.attrs) for k, v in model_data.variables.items()}
 
     encoding: dict[str, dict] = {
         k: (
@@ -185,6 +178,15 @@ def save_netcdf(
     }
 
     try:
+        for key, value in kwargs.items():
+            model_data.attrs[key] = value
+
+        _serialise(model_data.attrs)
+        for var in model_data.data_vars.values():
+            _serialise(var.attrs)
+        for var in model_data.coords.values():
+            _serialise(var.attrs)
+
         model_data.to_netcdf(
             path,
             mode=mode,
@@ -196,10 +198,8 @@ def save_netcdf(
         model_data.close()
     finally:  # Revert model_data.attrs back
         model_data.attrs = original_model_data_attrs
-        for var in model_data.data_vars.values():
-            _deserialise(var.attrs)
-        for var in model_data.coords.values():
-            _deserialise(var.attrs)
+        for name, attrs in original_var_attrs.items():
+            model_data[name].attrs = attrs
 
 
 def save_csv(
-- 
2.43.0


From 63baf6c72d5482e9db308bcb77649b4a15aa9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:59 +0000
Subject: [PATCH 26/35] fix: apply overrides and templates in the order they
 are given

---
 src/calliope/preprocess/model_definition.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/calliope/preprocess/model_definition.py b/src/calliope/preprocess/model_definition.py
index e168b7f..ecfe459 100644
--- a/src/calliope/preprocess/model_definition.py
+++ b/src/calliope/preprocess/model_definition.py
@@ -169,7 +169,8 @@ def _load_overrides_from_scenario(
         scenario_list = listify(scenarios[scenario])
     else:
         scenario_list = scenario.split(",")
-    scenario_overrides = set()
+    # A dictionary, as it keeps the order in which overrides are given
+    scenario_overrides: dict[str, None] = {}
     for override in scenario_list:
         if isinstance(override, dict):
             raise exceptions.ModelError(
@@ -177,14 +178,18 @@ def _load_overrides_from_scenario(
             )
         if override in scenarios:
             scenario_overrides.update(
-                _load_overrides_from_scenario(model_def, override, overrides, scenarios)
+                dict.fromkeys(
+                    _load_overrides_from_scenario(
+                        model_def, override, overrides, scenarios
+                    )
+                )
             )
         elif override not in overrides.keys():
             raise exceptions.ModelError(
                 f"(scenarios, {scenario}) | Unrecognised override name: {override}."
             )
         else:
-            scenario_overrides.add(override)
+            scenario_overrides[override] = None
 
     return list(scenario_overrides)
 
@@ -250,7 +255,7 @@ class TemplateSolver:
                 inherited_data = self._resolve_template(inherited_name, stack)
             result.union(inherited_data)
 
-        local_data = {k: raw_data[k] for k in raw_data.keys() - {self.TEMPLATE_CALL}}
+        local_data = {k: v for k, v in raw_data.items() if k != self.TEMPLATE_CALL}
         result.union(local_data, allow_override=True)
 
         stack.remove(name)
-- 
2.43.0


From b76a556c88045d0fa6c3fc179215daee375a5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 27/35] fix: leave the data frames passed in for data tables as
 they are

---
 src/calliope/preprocess/data_tables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1f9b161..129e421 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -321,9 +321,9 @@ class DataTable:
             self._raise_error(f"Expected {len(names)} {axis} levels in loaded data.")
         mapper = self.input.rename_dims
         if mapper:
-            df.rename_axis(inplace=True, **{axis: mapper})
+            df = df.rename_axis(**{axis: mapper})
         self._compare_axis_names(getattr(df, axis).names, names, axis)
-        df.rename_axis(inplace=True, **{axis: names})
+        df = df.rename_axis(**{axis: names})
 
         return df
 
-- 
2.43.0


From 0f57e102787f4dc8ae0bc10a8a7d09e2311a6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 28/35] fix: leave lists in dictionaries passed in as they are

---
 src/calliope/attrdict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 64189af..1189f89 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -69,8 +69,9 @@ class AttrDict(dict):
             if isinstance(v, dict):
                 self.set_key(k, AttrDict(v))
             elif isinstance(v, list):
-                # Modifying the list in-place so that if it is a modified
+                # Modifying a copy of the list in-place so that if it is a modified
                 # list subclass, e.g. CommentedSeq, it is not killed
+                v = copy.copy(v)
                 for i in range(len(v)):
                     if isinstance(v[i], dict):
                         v[i] = AttrDict(v[i])
-- 
2.43.0


From 63afba8772f818214c7b122be9a1549f449443d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 29/35] fix: keep the log folder of a solve from being used by
 later solves

---
 src/calliope/backend/pyomo_backend_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index ed2ad33..ae97bcd 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -352,6 +352,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 opt.options[k] = v
 
         solve_kwargs = {}
+        previous_tempdir = TempfileManager.tempdir
         if solve_config.save_logs is not None:
             solve_kwargs.update({"symbolic_solver_labels": True, "keepfiles": True})
             logdir = Path(solve_config.save_logs)
@@ -379,6 +380,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 # and would then refuse to solve the same model again.
                 if hasattr(self._instance, "._symbol_maps"):
                     delattr(self._instance, "._symbol_maps")
+                # It is shared by all models
+                TempfileManager.tempdir = previous_tempdir
 
         termination = results.solver[0].termination_condition
         # A solver can end without writing a solution (e.g. a time limit before any was found).
-- 
2.43.0


From e79b13cfe1f2be3de955181cde45d0139cd62b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 30/35] fix: save solver logs from the command line

---
 src/calliope/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/cli.py b/src/calliope/cli.py
index 8a72994..1199efe 100644
--- a/src/calliope/cli.py
+++ b/src/calliope/cli.py
@@ -281,7 +281,7 @@ def run(
             click.secho("Starting model run...")
             kwargs = {}
             if save_logs:
-                kwargs["solve.save_logs"] = save_logs
+                kwargs["save_logs"] = save_logs
 
             if save_csv is None and save_netcdf is None:
                 click.secho(
-- 
2.43.0


From 584aaeda2df1f4a0640519fa081312993ab846f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 31/35] fix: keep the time of steps below a minute in verbose
 naming

Renaming the components of a built model cut its timesteps to minutes for
good, so that later results had the wrong ones. Names tell such steps apart
now, and the coordinates are also restored if interrupted.
---
 src/calliope/backend/backend_model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 0dfa86f..020ec4f 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1565,21 +1565,25 @@ class BackendModel(BackendModelGenerator, Generic[T]):
 
     @contextmanager
     def _datetime_as_string(self, data: xr.DataArray | xr.Dataset) -> Iterator:
-        """Context manager to temporarily convert np.dtype("datetime64[ns]") coordinates (e.g. timesteps) to strings with a resolution of minutes.
+        """Context manager to temporarily convert np.dtype("datetime64[ns]") coordinates (e.g. timesteps) to strings with a resolution of minutes (or finer, where needed to tell them apart).
 
         Args:
             data (Union[xr.DataArray, xr.Dataset]): xarray object on whose coordinates the conversion will take place.
         """
-        datetime_coords = set()
-        for name in data.coords:
-            if self.math.dimensions[name].dtype in ["date", "datetime"]:
-                data.coords[name] = data.coords[name].dt.strftime("%Y-%m-%d %H:%M")
-                datetime_coords.add(name)
+        datetime_coords = {}
         try:
+            for name in list(data.coords):
+                if self.math.dimensions[name].dtype in ["date", "datetime"]:
+                    coord = data.coords[name]
+                    datetime_coords[name] = coord.variable
+                    resolution = "%Y-%m-%d %H:%M"
+                    if (coord != coord.dt.floor("min")).any():
+                        resolution += ":%S.%f"
+                    data.coords[name] = coord.dt.strftime(resolution)
             yield
         finally:
-            for name in datetime_coords:
-                data.coords[name] = data.coords[name].astype("datetime64[ns]")
+            for name, coord in datetime_coords.items():
+                data.coords[name] = coord
 
 
 class ShadowPrices:
-- 
2.43.0


From 8dbb910112c381e22b93e3206530f67b24a29275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 32/35] fix: generate run scripts that any POSIX shell runs

They ask for /bin/sh, which is not bash everywhere and then refuses them.
---
 src/calliope/util/generate_runs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 0169e00..b4231ca 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -73,7 +73,7 @@ def generate_bash_script(
     lines_start = [
         "#!/bin/sh",
         "",
-        "function process_case () {",
+        "process_case () {",
         '    case "$1" in',
         "",
     ]
@@ -81,7 +81,7 @@ def generate_bash_script(
         "    esac",
         "}",
         "",
-        "if [[ $# -eq 0 ]] ; then",
+        "if [ $# -eq 0 ] ; then",
         "    echo No parameter given, running all runs sequentially...",
         f"    for i in $(seq 1 {len(commands)}); do process_case $i; done",
         "else",
-- 
2.43.0


From 6d7c6daf9d6885968b7eb5732246462ac308fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 33/35] fix: request cluster times of a day or more in full

---
 src/calliope/util/generate_runs.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index b4231ca..ba17bd7 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -9,8 +9,6 @@ or sequentially on any machine.
 
 import os
 
-import pandas as pd
-
 from calliope.io import read_rich_yaml
 
 
@@ -162,9 +160,8 @@ def generate_sbatch_script(
 
     if ":" not in cluster_time:
         # Assuming time given as minutes, so needs changing to %H:%M:%S
-        cluster_time = pd.to_datetime(float(cluster_time), unit="m").strftime(
-            "%H:%M:%S"
-        )
+        minutes, seconds = divmod(round(float(cluster_time) * 60), 60)
+        cluster_time = f"{minutes // 60:02d}:{minutes % 60:02d}:{seconds:02d}"
 
     lines = [
         "#!/bin/bash",
-- 
2.43.0


From 2e1c4173996d0bb15bfd45e115f24096b10e03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 34/35] fix: quote names in generated run scripts

Model files, scenarios and overrides with characters that mean something
to a shell were split or changed by it.
---
 src/calliope/util/generate_runs.py | 56 +++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index ba17bd7..27452cc 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -8,11 +8,31 @@ or sequentially on any machine.
 """
 
 import os
+import re
+import shlex
+import subprocess
 
 from calliope.io import read_rich_yaml
 
 
-def generate_runs(model_file, scenarios=None, additional_args=None, override_dict=None):
+def _quote_shell(text):
+    """One word of a POSIX shell command, in double quotes."""
+    return '"' + re.sub(r'([$`"\\])', r"\\\1", text) + '"'
+
+
+def _quote_windows(text):
+    """One word of a Windows command."""
+    return subprocess.list2cmdline([text])
+
+
+def generate_runs(
+    model_file,
+    scenarios=None,
+    additional_args=None,
+    override_dict=None,
+    quote=shlex.quote,
+    quote_always=_quote_shell,
+):
     """Returns a list of "calliope run" invocations.
 
     ``scenarios`` must be specified as either a semicolon-separated
@@ -25,6 +45,8 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
     configuration, and if no scenarios given in the model configuration,
     uses all individual overrides, one by one.
 
+    ``quote`` and ``quote_always`` make a single word of the command line from any text.
+
     """
     if scenarios is None:
         config = read_rich_yaml(model_file)
@@ -37,7 +59,7 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
         else:
             runs = config.overrides.keys()
     else:
-        runs = scenarios.split(";")
+        runs = [run.strip() for run in scenarios.split(";")]
 
     commands = []
 
@@ -45,13 +67,16 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
     i_string = "{:0>" + str(len(str(len(runs)))) + "d}"
 
     for i, run in enumerate(runs):
+        # Scenario names can have characters that file names cannot
+        out_name = str(run).replace("/", "_")
+        out_file = f"out_{i_string.format(i + 1)}_{out_name}.nc"
         cmd = (
-            f"calliope run {model_file} --scenario {run} "
-            f"--save_netcdf out_{i_string.format(i + 1)}_{run}.nc "
-        ).strip()
+            f"calliope run {quote(str(model_file))} --scenario {quote(str(run))} "
+            f"--save_netcdf {quote(out_file)}"
+        )
 
         if override_dict:
-            cmd = f'{cmd} --override_dict="{override_dict}"'
+            cmd = f"{cmd} --override_dict={quote_always(str(override_dict))}"
 
         if additional_args:
             cmd = f"{cmd} {additional_args}"
@@ -83,8 +108,8 @@ def generate_bash_script(
         "    echo No parameter given, running all runs sequentially...",
         f"    for i in $(seq 1 {len(commands)}); do process_case $i; done",
         "else",
-        "    echo Running run $1",
-        "    process_case $1",
+        '    echo "Running run $1"',
+        '    process_case "$1"',
         "fi",
         "",
     ]
@@ -131,7 +156,7 @@ def generate_bsub_script(
         "#BSUB -r",  # Automatically restart failed jobs
         "#BSUB -o log_%I.log",
         "",
-        "./" + bash_out_file_basename + " ${LSB_JOBINDEX}",
+        shlex.quote("./" + bash_out_file_basename) + " ${LSB_JOBINDEX}",
         "",
     ]
 
@@ -184,9 +209,9 @@ def generate_sbatch_script(
         "#! module load miniconda3",
         "#! module load /path/to/miniconda3/envs/your_env_name/",
         "",
-        "cd $SLURM_SUBMIT_DIR",
+        'cd "$SLURM_SUBMIT_DIR"',
         "",
-        "./" + bash_out_file_basename + " ${SLURM_ARRAY_TASK_ID}",
+        shlex.quote("./" + bash_out_file_basename) + " ${SLURM_ARRAY_TASK_ID}",
     ]
 
     with open(out_file, "wb") as f:
@@ -197,7 +222,14 @@ def generate_windows_script(
     out_file, model_file, scenarios, additional_args=None, override_dict=None, **kwargs
 ):
     """Windows script generator."""
-    commands = generate_runs(model_file, scenarios, additional_args, override_dict)
+    commands = generate_runs(
+        model_file,
+        scenarios,
+        additional_args,
+        override_dict,
+        quote=_quote_windows,
+        quote_always='"{}"'.format,
+    )
 
     # \r\n are Windows line endings
     base_string = 'echo "Run {i}"\r\n{cmd}\r\n'
-- 
2.43.0


From 85da6ea5077f11c29620efbaa208cc261ae2ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 35/35] fix: do not keep earlier values for variables that a
 cut-off solution lacks

A solution file that was cut off was taken for a solution, and the variables it
does not list were reported with their values from an earlier solve.
---
 src/calliope/backend/pyomo_backend_model.py | 24 ++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index ae97bcd..b793d0f 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -25,7 +25,7 @@ from pyomo.core.kernel.piecewise_library.transforms import (
     PiecewiseValidationError,
     piecewise_sos2,
 )
-from pyomo.opt import SolverFactory  # type: ignore
+from pyomo.opt import Solution, SolverFactory  # type: ignore
 from pyomo.util.model_size import build_model_size_report  # type: ignore
 
 from calliope.backend import backend_model
@@ -384,8 +384,10 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 TempfileManager.tempdir = previous_tempdir
 
         termination = results.solver[0].termination_condition
-        # A solver can end without writing a solution (e.g. a time limit before any was found).
-        has_solution = len(results.solution) > 0 and results.solution[0].variable
+        # A solver can end without writing a (complete) solution (e.g. a time limit before any was found).
+        has_solution = len(results.solution) > 0 and self._is_complete(
+            results.solution[0]
+        )
         if not has_solution and termination in (
             pe.TerminationCondition.optimal,
             pe.TerminationCondition.feasible,
@@ -415,6 +417,22 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         results.attrs["termination_condition"] = str(termination)
         return results
 
+    @staticmethod
+    def _is_complete(solution: Solution) -> bool:
+        """Whether a solution has the values of all variables that were sent to the solver.
+
+        Those that it does not have would keep their values from an earlier solve.
+        """
+        if not solution.variable:
+            return False
+        if getattr(solution, "default_variable_value", None) is not None:
+            return True
+        return all(
+            symbol in solution.variable
+            for symbol, obj in solution.symbol_map.bySymbol.items()
+            if isinstance(obj, pmo.variable)
+        )
+
     def verbose_strings(self) -> None:  # noqa: D102, override
         def __renamer(val, *idx):
             if pd.notna(val):
-- 
2.43.0

