#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)


M = "src/calliope/model.py"
IO = "src/calliope/io.py"
BM = "src/calliope/backend/backend_model.py"
PB = "src/calliope/backend/pyomo_backend_model.py"

p("C01", "Operate mode solves every rolling window exactly once and in order",
  "In operate mode every timestep of the model appears exactly once, in order, in the results, and its values are those of the optimisation of the window it belongs to. The optimisation solved for each window is the one that a stand-alone model of just that window's horizon would pose, with every time-varying input taken from that slice and initial storage equal to the storage level that the previous window's kept part ended on. A window that ends in a time limit with a usable solution carries that solution's storage levels forward, and a run whose windows did not all end optimally says so.",
  ["configurations", "histories", "fault_sequences", "inputs"],
  "All window/horizon/timeseries-length combinations (including a shorter last horizon), all time-varying inputs (including ones with gaps), storage technologies, and any mix of solver endings per window.",
  "The tests run one two-day model with a couple of window settings and check lengths and log text; no test compares any window's optimisation or its carried storage with an independent solve, and no test makes a window end differently from the others.",
  [M, PB, BM, "src/calliope/math/operate.yaml"],
  [("rolling-horizon loop", M + ":_solve_operate"), ("window slicing", M + ":_prepare_operate_mode_inputs"), ("storage hand-over", M + ":_recalculate_storage_initial"), ("in-place input update", BM + ":_update_input")],
  ["the solver process boundary (problem received, solution returned)", "model.results"],
  [("window index", "which window the built problem is for", M), ("backend inputs", "inputs of the problem as built/updated", BM)])

p("C02", "Operate mode re-solves cleanly after any interrupted or failed run",
  "Solving an operate-mode model again after an earlier solve completed, was interrupted, or failed at any window gives the same results as solving a freshly built copy of the model once, in every window. A failed or interrupted run raises or reports the failure and leaves any earlier results in place.",
  ["histories", "crash_points", "fault_sequences"],
  "Any sequence of solves over one model in which each solve may be hit at any window by a solver crash, interruption, infeasible ending or missing solution.",
  "Re-solving in operate mode is only tested once, straight after a full fault-free run; no test interrupts a run part way.",
  [M, PB], [("reset to first window", M + ":_solve_operate"), ("results only assigned at the end", M + ":solve")],
  ["model.results", "the solver process boundary"])

p("C03", "Each SPORES iteration solves the documented alternative-generation problem",
  "In SPORES mode the first run minimises cost without scores or cost limit, and each later run minimises score-weighted capacity subject to total cost not exceeding the baseline cost times one plus the slack. Scores entering each run follow the chosen algorithm's documented rule applied to the previous runs' capacities (accumulated for integer, relative-deployment and random scoring; restricted to tracked technologies when a tracking parameter is given), and the run's results are stored under its own number together with the scores and baseline cost that were in force. Solving again from scratch, including after inputs were changed, starts from zero scores and an unconstrained baseline.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "All scoring algorithms, numbers of runs, slacks, thresholds, tracking parameters, input changes between solves, and repeated solves of one model.",
  "Tests run one tiny model for two iterations per algorithm and check that scores are non-null and that some capacity changes; the scoring rules, cost limits and repeated solves after input changes are not checked against anything independent.",
  [M, "src/calliope/math/spores.yaml"],
  [("iteration loop", M + ":_solve_spores"), ("scoring algorithms", M + ":_spores_update_model"), ("cost constraint and score objective", "src/calliope/math/spores.yaml")],
  ["the solver process boundary", "model.results"],
  [("spores_score", "per node/tech score in force", PB), ("spores_baseline_cost", "cost limit basis in force", PB)])

p("C04", "Continuing SPORES equals having run them all in one go",
  "Running some SPORES and later continuing to a larger number, in the same session, from a saved model file, or from a per-run file after a crash, gives the same results for every run as running the larger number in one go, for scoring rules that depend only on accumulated scores and the previous run. Runs completed before the continuation keep their results unchanged.",
  ["histories", "crash_points"],
  "Any split of N runs into sessions, each ending by completion or by a stop/crash after any run, resumed in memory, from the whole-model file or from the latest per-run file; also starting from existing baseline results.",
  "One continuation (2 then 4 runs, in memory) is tested and only the carried-over runs are compared; no test compares the continued runs with a straight run, or resumes from a file.",
  [M, IO], [("restart from latest results", M + ":_solve_spores"), ("per-run files", M + ":_spores_save_model"), ("reload", IO + ":read_netcdf")],
  ["model.results", "files in the per-run directory"])

p("C05", "Completed SPORES survive any failure when saved per run",
  "With per-run saving on, once a SPORES run is finished its file exists, loads without error and holds exactly that run's results (the baseline file also holds the inputs), and it stays that way whatever happens later: infeasibility, solver crash, interruption, disk error or a kill of the process. No per-run file ever loads as a run with missing or partial data, and a run that gave no solution leaves no file of its own.",
  ["crash_points", "fault_sequences"],
  "A kill at any file-system call during the session, any disk error at any write, any solver ending at any run, and re-runs into a directory that already holds files.",
  "The tests count files after a fault-free run and after one infeasible run; no test crashes the process or fails a write.",
  [M, IO], [("per-run save", M + ":_spores_save_model"), ("netCDF writing", IO + ":save_netcdf")],
  ["files in the per-run directory after a simulated kill"])

p("C06", "Results are presented only when this solve really returned a solution",
  "Whatever way the solver ends - optimal, infeasible, unbounded, a limit with or without a usable solution, a crash, a missing or cut-off solution file - the model either presents exactly the values the solver returned for this very solve together with the termination it reported, or presents no result values and a non-optimal termination, or raises. Values from an earlier solve, from another model or from defaults are never presented as this solve's results.",
  ["fault_sequences", "histories"],
  "Every solver ending at every solve of any sequence of solves in base, operate and SPORES mode.",
  "Tests cover one infeasible model and otherwise always an optimal ending of a first solve.",
  [PB, M, BM], [("termination handling", PB + ":_solve"), ("results extraction", BM + ":load_results")],
  ["model.results", "model.runtime.termination_condition"])

p("C07", "Failed or refused operations leave the model as it was and usable",
  "Building an already built model or solving a model that has results is refused unless forced, solving an unbuilt model is refused, and a refused call changes nothing. A build or solve that fails or is interrupted at any point leaves earlier results, inputs and status untouched, and repeating the call without the fault gives what it would have given the first time.",
  ["histories", "fault_sequences", "crash_points"],
  "Any sequence of build/solve calls, forced or not, with valid and invalid options, with a failure or interruption injected at any interaction with the solver, file system or at any point inside the build.",
  "Tests check the refusals once each on fresh models and never look at the model's state after a refusal or failure.",
  [M, BM, PB], [("force guards", M + ":build/solve"), ("results assigned last", M + ":solve")],
  ["model.results", "model.inputs", "model.is_built/is_solved", "following build/solve"])

p("C08", "Updating a built problem equals building it anew with the new inputs",
  "After any sequence of input updates, variable-bound updates, objective changes, solves and failed solves on a built model, the problem handed to the solver is equivalent to that of a model freshly built from the updated inputs with the same bounds and objective applied. Missing (NaN) entries of an update leave the existing values in place, lower-dimensional updates apply along the missing dimensions, and the inputs reported by the backend are those in force.",
  ["histories", "inputs"],
  "Any order and number of updates of any parameter/lookup (scalar, broadcast, partial, newly introduced, restored), interleaved with objective switches, bound updates, verbose naming, solves and solver faults.",
  "Backend tests update a handful of parameters once each on a fresh model and inspect single components; no test compares the whole problem with a rebuild or applies a sequence.",
  [BM, PB], [("update and rebuild of dependants", BM + ":_update_input/_rebuild_references"), ("reference tracking", BM + ":_find_all_references"), ("objective switching", PB + ":set_objective"), ("bounds", PB + ":update_variable_bounds")],
  ["the solver process boundary", "exported LP file", "backend parameters"])

p("C09", "Fixed variables keep the last solution's values until released",
  "After fixing a decision variable (wholly or for some of its entries), every later solve uses exactly the values of the most recent successful solve before the fix for those entries and optimises the rest; after releasing it, the problem is again the original one. Fixing before there is any solution is refused or has no effect on the solution, and failed solves in between do not change the fixed values.",
  ["histories", "fault_sequences"],
  "Any sequence of fix, partial fix, release, partial release, input update, solve and failed solve.",
  "Tests fix one variable once on one model and check a flag; values after later solves or failures are not checked.",
  [PB], [("fix/unfix", PB + ":fix_variable/unfix_variable")], ["the solver process boundary", "model.results"])

p("C10", "A model saved to NetCDF and loaded again is the same model",
  "Saving a model at any point of its life and loading the file gives a model with identical inputs, results, definition, configuration, math and run information; it builds the same optimisation problem and solves to the same results. Saving, loading and saving again gives the same content.",
  ["histories", "configurations", "inputs"],
  "Any lifecycle point (initialised, built, solved, re-solved, updated, infeasible, operate, SPORES, loaded from file) and any model content the definition format allows (booleans, strings, dates, unicode names, infinities, missing values, single-element lists, empty attributes).",
  "IO tests save one solved model and one with hand-written attributes; other lifecycle points and the equality of the rebuilt problem are not covered.",
  [IO, M, "src/calliope/preprocess/model_data.py"], [("attribute serialisation", IO + ":_serialise/_deserialise"), ("group-wise save and load", IO + ":save_netcdf/read_netcdf")],
  ["reloaded model", "the problem it builds"])

p("C11", "A failed, killed or disk-starved save never passes for a complete model",
  "If saving to NetCDF fails or the process is killed at any point, then loading whatever is at the path afterwards either raises or gives a complete model that was really saved there; it never silently gives a model with missing or partial inputs, results or configuration. A failed save raises and leaves the model in memory unchanged so that saving again succeeds; a read error while loading raises instead of giving a partial model.",
  ["crash_points", "fault_sequences"],
  "A kill, full disk, I/O error or short write at any file-system call of a save (onto a new or existing file), and a read error at any call of a load.",
  "No test fails or interrupts a save or load.",
  [IO, M], [("group-wise save", IO + ":save_netcdf"), ("attribute restore in finally", IO + ":save_netcdf"), ("group-wise load", IO + ":read_netcdf")],
  ["the file at the target path after the fault", "model attributes in memory"])

p("C12", "CSV and LP exports are complete or fail loudly, and never overwrite unasked",
  "Exporting to CSV writes one file per input and result array whose non-missing values are exactly those in memory, refuses to touch an existing directory unless overwriting is allowed, and raises if any file could not be written completely. The LP export writes the complete current optimisation problem or raises. Neither changes the model.",
  ["fault_sequences", "histories", "inputs"],
  "Any disk error at any file-system call of an export, existing or new targets, any lifecycle point.",
  "Tests export a solved model once to an empty directory and look for file names.",
  [IO, M, PB], [("CSV saving", IO + ":save_csv"), ("LP writing", PB + ":to_lp")],
  ["exported files", "exceptions raised"])

p("C13", "The same model definition always gives the same model and results",
  "Loading, building and solving the same definition gives identical inputs, applied overrides, optimisation problem, results and reported termination, whatever the hash seed, directory-listing order, wall-clock time (including jumps during the run), logging verbosity, or what the process did before. Random SPORES scoring depends only on the state of the global random generator.",
  ["schedules", "configurations", "histories"],
  "All interpreter hash seeds, orders in which the file system lists files, clocks that stand still, jump or run backwards, and prior use of other models in the process.",
  "The suite runs in one process order with one fixed hash seed and a well-behaved clock, and never compares two loads of one definition.",
  [M, "src/calliope/preprocess/model_definition.py", "src/calliope/preprocess/model_math.py", "src/calliope/util/logging.py", "src/calliope/util/generate_runs.py"],
  [("scenario expansion", "src/calliope/preprocess/model_definition.py:_load_overrides_from_scenario"), ("math file discovery", "src/calliope/preprocess/model_math.py:initialise_math"), ("timings", "src/calliope/util/logging.py:log_time")],
  ["inputs, problem, results and attributes of two runs"])

p("C14", "Models in one process never affect each other or the caller's data",
  "Interleaving operations on several models in one process, in any order and with failures in any of them, gives each model exactly the inputs, problems and results it has when used alone. Dictionaries, data frames and arrays passed in by the caller are not modified, and later changes to them do not change the model.",
  ["schedules", "histories", "fault_sequences"],
  "Any interleaving of load, build, update, solve, save and export calls on two or more models sharing definitions, data frames and solver log settings, with solver and disk faults.",
  "Each test uses its own model one call after the other; shared caller data and interleavings are not checked.",
  [M, "src/calliope/attrdict.py", "src/calliope/preprocess/data_tables.py", PB, IO],
  [("copies of caller data", "src/calliope/attrdict.py"), ("data table loading", "src/calliope/preprocess/data_tables.py"), ("solver temp-file settings", PB + ":_solve")],
  ["per-model transcript compared with a solo run", "caller objects before and after"])

p("C15", "The command line exits 0 only when everything asked for was done",
  "`calliope run` exits 0 only if the model was loaded, solved and every requested output was written completely; with any failure (bad input, solver crash, disk error, interruption) it exits non-zero, and with the fail-when-infeasible default a run without an optimal solution exits non-zero. Outputs written on exit 0 hold the same inputs and results as running the model through the Python interface, for every documented option.",
  ["fault_sequences", "configurations", "crash_points"],
  "Any combination of documented options, model file kinds, solver endings and disk errors.",
  "CLI tests run a few option combinations on the happy path and one infeasible model; solver crashes, disk errors and several options (log saving, per-run SPORES saving) are not run.",
  ["src/calliope/cli.py"], [("run command", "src/calliope/cli.py:run"), ("exception to exit code", "src/calliope/cli.py:format_exceptions")],
  ["process exit code", "output files"])

p("C16", "Shadow prices come from the solve they are reported with",
  "Whenever shadow prices were requested for a constraint and the solver provides them, the results of that solve hold the solver's dual values for exactly the requested constraints; changing or dropping the request changes the next solve's results accordingly. Duals from an earlier solve, or after a solve without duals, are never reported.",
  ["histories", "fault_sequences", "configurations"],
  "Any sequence of solves with changing requests, solvers with and without duals, input updates, rebuilds, operate-mode windows and failed solves.",
  "Tests read shadow prices after one solve of one model per setting.",
  [BM, PB, M], [("tracking requests", BM + ":ShadowPrices.track_constraints"), ("dual import", PB + ":PyomoShadowPrices"), ("results extraction", BM + ":load_results")],
  ["model.results", "the solver process boundary"])

p("C17", "Looking at or saving a model never changes it",
  "Inspecting or exporting a model - reading components, bounds and values, evaluating expressions, verbose naming, LP, NetCDF and CSV export, info and attribute dumps - at any point, successful or failed, leaves inputs, results, configuration, the optimisation problem and all later operations' outcomes as if it had not been called.",
  ["histories", "fault_sequences"],
  "Insertion of any read-only call, with or without a disk fault, at any point of any operation history.",
  "Getters are tested for their return value only.",
  [BM, PB, M, IO], [("getters", PB), ("verbose names", PB + ":verbose_strings"), ("attribute restore after save", IO + ":save_netcdf")],
  ["history outcome with and without the inserted calls"])

p("C18", "Generated run scripts run each scenario exactly once under any job order",
  "A generated script runs every requested scenario exactly once when run without an index, and exactly the n-th one for each array index, for plain shell, LSF and SLURM kinds; the array size equals the number of scenarios, no two runs share an output file, and each run receives the requested overrides and extra arguments. This holds for any order, concurrency, restart and failure of the jobs.",
  ["schedules", "fault_sequences", "inputs"],
  "Any scenario list or model-defined scenarios/overrides, any job order, re-queued or failed jobs.",
  "Tests compare the number of script lines for one model; no script is executed.",
  ["src/calliope/util/generate_runs.py", "src/calliope/cli.py"], [("script generators", "src/calliope/util/generate_runs.py")],
  ["invocations recorded by a stand-in for the calliope command"])

# ---- pure-function properties: real guarantees, but nothing for a simulator to decide ----
p("C30", "Math expressions evaluate to the array arithmetic they denote",
  "Every valid math expression, slice, sum and helper function evaluates to the array arithmetic its text denotes, for all dimension combinations and missing values.",
  ["programs", "inputs"], "All expression strings over all arrays.",
  "Parser tests evaluate fixed example strings.", ["src/calliope/backend/expression_parser.py", "src/calliope/backend/helper_functions.py"],
  [("expression evaluation", "src/calliope/backend/expression_parser.py")])
p("C31", "Where strings select exactly the entries that satisfy them",
  "Every valid where string selects exactly the array entries for which its boolean expression holds, with undefined inputs treated as documented.",
  ["programs", "inputs"], "All where strings over all inputs.", "Parser tests use fixed example strings.",
  ["src/calliope/backend/where_parser.py"], [("where evaluation", "src/calliope/backend/where_parser.py")])
p("C32", "Time subsetting, resampling and clustering conserve the represented time",
  "After any subset, resample or clustering the timestep weights and resolutions represent the chosen period exactly and each input is aggregated by its declared rule.",
  ["inputs", "configurations"], "All timeseries and settings.", "Tests use a few fixed settings.",
  ["src/calliope/preprocess/time.py"], [("resampling and clustering", "src/calliope/preprocess/time.py")])
p("C33", "Scenarios and overrides apply in the documented precedence",
  "Later overrides win over earlier ones and command-line overrides over scenarios, for every key, and templates are inherited fully.",
  ["inputs", "configurations"], "All definitions, scenarios and overrides.", "Tests use fixed definitions.",
  ["src/calliope/preprocess/model_definition.py", "src/calliope/attrdict.py"], [("override application", "src/calliope/preprocess/model_definition.py")])
p("C34", "Data tables load every cell to its stated place",
  "Every value in a data table appears in the inputs at exactly the index its row, column and added dimensions give it, after select, drop and rename.",
  ["inputs"], "All tables and table settings.", "Tests use fixed tables.",
  ["src/calliope/preprocess/data_tables.py", "src/calliope/preprocess/model_data.py"], [("table loading", "src/calliope/preprocess/data_tables.py")])
p("C35", "Solutions of the shipped math respect the physical balances it documents",
  "In every feasible result carriers balance at every node and timestep, storage levels follow flows and losses, and capacities stay within their limits.",
  ["inputs"], "All model inputs.", "Tests check selected constraints exist.",
  ["src/calliope/math/base.yaml", "src/calliope/math/milp.yaml", "src/calliope/math/storage_inter_cluster.yaml"], [("math definition", "src/calliope/math/base.yaml")])
p("C36", "Invalid definitions are rejected with an error naming the problem",
  "Every definition that breaks the documented schema or checks is rejected before building, and every valid one is accepted.",
  ["inputs"], "All definitions.", "Tests use fixed invalid examples.",
  ["src/calliope/schemas", "src/calliope/preprocess/model_data.py"], [("schema validation", "src/calliope/schemas")])
p("C37", "Generated math documentation matches the math that is built",
  "The written math documentation lists exactly the active components with the equations and conditions that the backend builds.",
  ["programs", "inputs"], "All math definitions.", "Tests compare fixed strings.",
  ["src/calliope/backend/latex_backend_model.py", "src/calliope/postprocess/math_documentation.py"], [("LaTeX backend", "src/calliope/backend/latex_backend_model.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
