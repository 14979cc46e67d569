"""The planted bugs: where they go and what they need (the demonstrations lie in seeded/<id>/)."""

BUGS = [
    dict(id="c01-end-of-horizon", property="C01",
         needs="operate mode with a horizon longer than the window and storage that is not empty at the end of the horizon as it is at the end of the window",
         what_it_breaks="The next window starts from the storage level at the end of the previous horizon instead of the previous window, so storage is not continuous in the results.",
         edits=[("model.py", "            previous_iteration_results = results_list[-1]\n", "            previous_iteration_results = iteration_results\n")]),
    dict(id="c01-end-storage-cap", property="C01",
         needs="operate mode with a storage capacity so small (< 1) that it is filtered as though it was zero",
         what_it_breaks="The initial storage of a window is dropped for small storage capacities, and the previous initial value is kept.",
         edits=[("model.py", "            lambda x: x > 0\n", "            lambda x: x >= 1\n")]),
    dict(id="c02-late-window-index", property="C02",
         needs="an operate run that is interrupted (or fails) in the second window of same length, followed by another solve of the same model",
         what_it_breaks="The window that is being solved is noted only after it was solved, so that a run interrupted in the second window is not reset to the first one when solved again.",
         edits=[("model.py", "            self._start_window_idx = idx + 1\n            windowstep_as_string", "            windowstep_as_string"),
                ("model.py", "            iteration_results = self.backend._solve(solver_config, warmstart=False)\n            iteration_results.coords[\"timesteps\"] = new_ts\n",
                 "            iteration_results = self.backend._solve(solver_config, warmstart=False)\n            iteration_results.coords[\"timesteps\"] = new_ts\n            self._start_window_idx = idx + 1\n")]),
    dict(id="c03-skip-infeasible", property="C03",
         needs="a SPORE without a solution that is followed by SPOREs with a solution (e.g. a time limit that is reached once)",
         what_it_breaks="The run goes on after a SPORE without a solution, and the results of later SPOREs are given the numbers of earlier ones.",
         edits=[("model.py", "due to model infeasibility.\"\n                )\n                break\n", "due to model infeasibility.\"\n                )\n                continue\n")]),
    dict(id="c05-save-at-end", property="C05",
         needs="a failure or kill in a SPORE after others have been completed",
         what_it_breaks="SPOREs are saved together at the end of the run and all of them are lost if it fails half-way.",
         edits=[("model.py", "            iteration_results = self.backend._solve(solver_config, warmstart=False)\n            self._spores_save_model(iteration_results, spores_config, spore)\n",
                 "            iteration_results = self.backend._solve(solver_config, warmstart=False)\n            if not iteration_results:\n                self._spores_save_model(iteration_results, spores_config, spore)\n"),
                ("model.py", "        spores_dim = pd.Index(\n", "        for spore, spore_results in zip(spore_range, results_list[1:]):\n            self._spores_save_model(spore_results, spores_config, spore)\n\n        spores_dim = pd.Index(\n")]),
    dict(id="c06-incumbent", property="C06",
         needs="a solve that ends at a time limit without a solution, after an earlier successful solve of the same built model",
         what_it_breaks="The values still held by the variables from an earlier solve are presented as the results of the solve that found none.",
         edits=[("backend/pyomo_backend_model.py", "            results = xr.Dataset()\n\n        results.attrs",
                 "            results = xr.Dataset()\n            if termination == pe.TerminationCondition.maxTimeLimit:\n                # Keep the incumbent, if there is one\n                if any(not da.isnull().all() and da.to_series().dropna().iloc[0].value is not None for da in self.variables.values()):\n                    results = self.load_results(solve_config.postprocessing_active)\n\n        results.attrs")]),
    dict(id="c08-shallow-references", property="C08",
         needs="an input that only reaches a component through a chain of at least two other components, updated with values that need a rebuild",
         what_it_breaks="Components that refer to the updated input through more than one other component are not rebuilt and still hold the old expression.",
         edits=[("backend/backend_model.py", "            references.update(self._find_all_references(new_refs))\n", "            references.update(new_refs)\n")]),
    dict(id="c09-bounds-release", property="C09",
         needs="a fixed variable whose bounds are then updated so that the fixed value lies outside",
         what_it_breaks="Updating bounds silently releases fixed variables.",
         edits=[("backend/pyomo_backend_model.py", "        setattr(orig, bound, new)\n", "        setattr(orig, bound, new)\n        if orig.fixed and not ((orig.lb or 0) <= orig.value and (orig.ub is None or orig.value <= orig.ub)):\n            # The fixed value has become infeasible\n            orig.unfix()\n")]),
    dict(id="c10-quantised", property="C10",
         needs="values with more than nine decimals, e.g. costs of 1e-12 or capacities with many digits",
         what_it_breaks="Values are rounded when a model is saved.",
         edits=[("io.py", 'else {"zlib": True, "complevel": 4}', 'else {"zlib": True, "complevel": 4, "least_significant_digit": 9}')]),
    dict(id="c11-retry", property="C11",
         needs="writing that fails every time, e.g. a full disk",
         what_it_breaks="Failing to write is retried three times and then taken for a success: the file that replaces the earlier one lacks a group.",
         edits=[("io.py", """        model_data.to_netcdf(
            path,
            mode=mode,
            format="netCDF4",
            engine="netcdf4",
            encoding=encoding,
            group=group_name,
        )
""", """        for attempt in range(3):
            try:
                model_data.to_netcdf(
                    path,
                    mode=mode,
                    format="netCDF4",
                    engine="netcdf4",
                    encoding=encoding,
                    group=group_name,
                )
                break
            except OSError as error:
                # Networked file systems sometimes need a moment
                logger.warning(f"Saving `{group_name}` failed ({error}), trying again.")
""")]),
    dict(id="c12-overwrite", property="C12",
         needs="a directory that has files other than the inputs of a model in it, such as attrs.yaml or results",
         what_it_breaks="An existing directory is only refused if it has CSV files of the group in it, so other exports are overwritten without being asked for.",
         edits=[("io.py", "    path.mkdir(parents=True, exist_ok=allow_overwrite)\n",
                 "    if not allow_overwrite and any(path.glob(f\"{group_name}_*.csv\")):\n        raise FileExistsError(f\"CSV files already exist in {path}\")\n    path.mkdir(parents=True, exist_ok=True)\n")]),
    dict(id="c13-own-generator", property="C13",
         needs="two runs of SPORES with random scores from the same state of the global random generator",
         what_it_breaks="Random SPORES scores are drawn from a generator of their own that is seeded from the operating system, so that a run cannot be repeated.",
         edits=[("model.py", "other=np.random.choice([0, 1000], size=(previous_cap.shape))", "other=np.random.default_rng().choice([0, 1000], size=previous_cap.shape)")]),
    dict(id="c16-tracked-kept", property="C16",
         needs="a solve that tracks shadow prices followed by one that tracks none (or others)",
         what_it_breaks="Constraints that are no longer tracked are still reported, with the duals of whichever solve last provided some.",
         edits=[("backend/backend_model.py", "        if valid_constraints:\n            self.activate()\n        self._tracked = valid_constraints\n", "        if valid_constraints:\n            self.activate()\n            self._tracked = valid_constraints\n")]),
    dict(id="c04-budget-drift", property="C04",
         needs="SPORES continued from results that are not the baseline, without a baseline cost in the inputs",
         what_it_breaks="The cost limit of continued SPORES is based on the cost of the latest SPORE, so that the slack is applied again with every continuation.",
         edits=[("model.py", """        constraining_cost = baseline_results.get(
            "spores_baseline_cost_tracked", self.inputs.get("spores_baseline_cost")
        )
""", """        constraining_cost = self.inputs.get("spores_baseline_cost")
""")]),
    dict(id="c07-build-flag", property="C07",
         needs="a forced build that fails on a model that is built already",
         what_it_breaks="A model whose forced build failed no longer counts as built and refuses to be solved.",
         edits=[("model.py", """        if self._is_built and not force:
            raise exceptions.ModelError(
                "This model object already has a built optimisation problem. Use model.build(force=True) "
                "to force the existing optimisation problem to be overwritten with a new one."
            )
""", """        if self._is_built:
            if not force:
                raise exceptions.ModelError(
                    "This model object already has a built optimisation problem. Use model.build(force=True) "
                    "to force the existing optimisation problem to be overwritten with a new one."
                )
            self._is_built = False
""")]),
    dict(id="c14-overrides", property="C14",
         needs="the same AttrDict of overrides, with scenarios or overrides in it, given to two models",
         what_it_breaks="Reading a model removes the scenarios and overrides from the caller's AttrDict, so that the next model read with it does not have them.",
         edits=[("preprocess/model_definition.py", "    overrides = AttrDict(override_dict)\n", "    overrides = (\n        override_dict\n        if isinstance(override_dict, AttrDict)\n        else AttrDict(override_dict)\n    )\n")]),
    dict(id="c14-cached-math", property="C14",
         needs="a math file that is edited between reading two models that use it",
         what_it_breaks="A model is given the math that an earlier model of the same process was given, instead of what is in its math file.",
         edits=[("preprocess/model_math.py", "    return AttrDict({name: read_rich_yaml(path) for name, path in math_paths.items()})\n",
                 "    return AttrDict({name: _read_math(path).copy() for name, path in math_paths.items()})\n\n\n@functools.cache\ndef _read_math(path: str | Path) -> AttrDict:\n    \"\"\"Parsing the pre-defined math takes a while, so it is done once.\"\"\"\n    return read_rich_yaml(path)\n"),
                ("preprocess/model_math.py", "import logging\n", "import functools\nimport logging\n")]),
    dict(id="c15-limits", property="C15",
         needs="a run from the command line that ends without a solution for another reason than being infeasible",
         what_it_breaks="The command exits with zero although there is no solution, e.g. after a time limit or for an unbounded problem.",
         edits=[("cli.py", 'if fail_when_infeasible and termination != "optimal":', 'if fail_when_infeasible and termination == "infeasible":')]),
    dict(id="c17-names-interrupted", property="C17",
         needs="naming that is interrupted, e.g. by Ctrl-C, followed by a solve",
         what_it_breaks="The time steps of the problem, and of later results, stay text if naming does not get to its end.",
         edits=[("backend/backend_model.py", """        try:
            for name in list(data.coords):
                if self.math.dimensions[name].dtype in ["date", "datetime"]:
                    coord = data.coords[name]
                    datetime_coords[name] = coord.variable
                    resolution = "%Y-%m-%d %H:%M"
                    if (coord != coord.dt.floor("min")).any():
                        resolution += ":%S.%f"
                    data.coords[name] = coord.dt.strftime(resolution)
            yield
        finally:
            for name, coord in datetime_coords.items():
                data.coords[name] = coord
""", """        for name in list(data.coords):
            if self.math.dimensions[name].dtype in ["date", "datetime"]:
                coord = data.coords[name]
                datetime_coords[name] = coord.variable
                resolution = "%Y-%m-%d %H:%M"
                if (coord != coord.dt.floor("min")).any():
                    resolution += ":%S.%f"
                data.coords[name] = coord.dt.strftime(resolution)
        yield
        for name, coord in datetime_coords.items():
            data.coords[name] = coord
""")]),
    dict(id="c18-stop-on-failure", property="C18",
         needs="a run that fails, before others, in a script that is run without an index",
         what_it_breaks="The runs after a failed one are not started.",
         edits=[("util/generate_runs.py", "do process_case $i; done", "do process_case $i || exit; done")]),
    dict(id="c18-override-scenarios", property="C18",
         needs="a file of overrides that adds or replaces scenarios, with no scenarios asked for",
         what_it_breaks="Scenarios that are defined in the file of overrides are not run.",
         edits=[("util/generate_runs.py", """            config.union(override, allow_override=True, allow_replacement=True)

        if "scenarios" in config:
            runs = config.scenarios.keys()
        else:
            runs = config.overrides.keys()
""", """            config = override | config

        if "scenarios" in config:
            runs = config["scenarios"].keys()
        else:
            runs = config["overrides"].keys()
""")]),
]
