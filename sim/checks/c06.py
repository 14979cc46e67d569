"""C06: results are presented only when this solve really returned a solution."""
from __future__ import annotations

from sim import core, lib, models, rolling

ID = "C06"
LEVEL = "deterministic simulation: seeded sequences of solves, each ending as the plan says, presented results compared with the values this very solver request returned"
RULE = ("one evaluation is one solve call of a model (base, milp, operate or spores mode; cbc or glpk) whose solver endings are prescribed "
        "by the plan; a run is nontrivial if at least one ending is not the plain optimum; distinct runs differ in their recorded history of "
        "endings, terminations and presented values")
REAL = ["calliope (all of it)", "pyomo (LP writer, solution readers, solver plugins)", "xarray", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary: endings other than the true optimum are written by the simulator in the solver's own formats"]

KINDS = ["tag", "ok", "okfile", "limit_sol", "limit_tag", "limit_nosol", "limit_nonint", "iter_sol", "infeasible", "unbounded", "difficulties",
         "rc", "killed", "rc_sol", "nofile", "nofile_log", "trunc", "noexec", "interrupt"]


def outcome(rng, kinds=KINDS):
    o = {"kind": rng.choice(kinds), "seed": rng.randrange(10**6)}
    if o["kind"] == "noexec":
        o["errno"] = rng.choice(["ENOMEM", "ENOENT", "EACCES"])
    if o["kind"] == "trunc":
        o["keep"] = rng.choice([0.0, 0.2, 0.5, 0.8, 0.999])
    if o["kind"] == "rc":
        o["rc"] = rng.choice([1, 2, 134])
    return o


def groups(seed, tier):
    out = []
    n_groups = 8 if tier == "quick" else 96
    n_plans = 22 if tier == "quick" else 60
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        shape = ["base", "base", "milp", "spores", "operate", "base-full", "operate", "base"][g % 8]
        mode = shape if shape in ("spores", "operate") else "base"
        kw = {"mode": mode, "tiny": shape not in ("milp", "base-full"), "milp": shape == "milp"}
        if mode == "operate":
            kw.update(steps=rng.choice([4, 5, 6]), window="2h", horizon=rng.choice(["2h", "3h", "4h"]))
        d = models.system(rng, **kw)
        e = models.system(rng, mode="base", steps=3, nodes=1)
        if mode == "spores":
            d.setdefault("data_definitions", {})["spores_slack"] = 0.5
        plans = []
        for p in range(n_plans if mode == "base" else n_plans * 3 // 5):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.random()
                if k < 0.08:
                    ops.append({"op": "rebuild"})
                elif k < 0.2:
                    ops.append({"op": "other", "outcomes": [outcome(rng)]})
                else:
                    n = {"operate": 3, "spores": 4}.get(mode, 1)
                    calm = rng.random()
                    outs = []
                    for _ in range(n):
                        if n > 1 and rng.random() < (0.75 if calm < 0.8 else 0.2):
                            outs.append({"kind": rng.choice(["tag", "ok", "tag"]), "seed": rng.randrange(10**6)})
                        else:
                            outs.append(outcome(rng))
                    ops.append({"op": "solve", "solver": rng.choice(["cbc", "cbc", "glpk"]), "outcomes": outs,
                                "post": bool(mode == "spores" or rng.random() < 0.4), "warmstart": rng.random() < 0.2})
            if n_plans > 3 and p < len(KINDS) and mode == "base":
                # every ending, after a solve that worked, at least once per configuration and solver
                o = {"kind": KINDS[p], "seed": p}
                ops = [{"op": "solve", "solver": rng.choice(["cbc", "glpk"]), "outcomes": [{"kind": "tag", "seed": 900 + p}], "post": False},
                       {"op": "solve", "solver": ["cbc", "glpk"][(p + g) % 2], "outcomes": [o], "post": False},
                       {"op": "solve", "solver": ["glpk", "cbc"][(p + g) % 2], "outcomes": [o], "post": False}] + ops[:2]
            plans.append({"ops": ops})
        out.append({"config": {"model": d, "other": e, "mode": mode}, "plans": plans})
    return out


def prepare(config, ctx):
    a = models.make(config["model"])
    a.build()
    b = models.make(config["other"])
    b.build()
    for m in (a, b):
        ctx.world.watch(m)
    return {"a": a, "b": b, "config": config}


def execute(base, plan, ctx):
    w = ctx.world
    mode = base["config"]["mode"]
    ctx.evaluations = 0
    ctx.nontrivial = False
    final = max((i for i, op in enumerate(plan["ops"]) if op["op"] != "rebuild"), default=-1)
    only = None
    if final > 0:
        # what the same request gives when nothing has been solved before
        only = ctx.fork(lambda: alone(base, plan["ops"][final], w))
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "rebuild":
            base["a"].build(force=True)
            ctx.log("rebuild")
            continue
        model = base["b"] if op["op"] == "other" else base["a"]
        kind = "base" if op["op"] == "other" else mode
        before = model.results.copy(deep=True)
        before_term = model.runtime.termination_condition
        n0 = len(w.events)
        o = solve(model, op, w)
        evs = w.events[n0:]
        ctx.evaluations += 1
        ctx.sim_seconds += lib.hours(model)
        kinds = [e.kind for e in evs]
        if any(k not in ("ok", "tag", "okfile") for k in kinds):
            ctx.nontrivial = True
        ctx.log(op["op"], kinds, o.name, str(model.runtime.termination_condition), sorted(map(str, model.results.data_vars)),
                {k: float(v) for k, v in list(lib.results_labels(model.results, ["flow_out"]).items())[:6]})
        judge(ctx, model, kind, o, evs, before, before_term)
        if i == final and only is not None and o.ok and model.results.data_vars:
            if only[0] != "ok" or only[1] is None:
                raise core.HarnessError(f"the twin of a solve that returned did not return: {only}")
            d = lib.compare_datasets(only[1], model.results, "results", rel=1e-6)
            if d:
                ctx.fail("results-of-another-solve", f"after {kinds}, the results differ from those of the same request to a model that was not solved before: " + "; ".join(map(str, d)),
                         kinds=",".join(kinds), mode=kind)
            ctx.probe("twin")


def solve(model, op, w):
    lib.queue(w, op["outcomes"])
    kw = {"force": True, "warmstart": op.get("warmstart", False)}
    if op["op"] == "solve":
        kw.update(solver=op["solver"], postprocessing_active=op["post"])
    o = lib.attempt(model.solve, **kw)
    w.outcomes.clear()
    return o


def alone(base, op, w):
    model = base["b"] if op["op"] == "other" else base["a"]
    return model.results if solve(model, op, w).ok else None


def judge(ctx, model, mode, o, evs, before, before_term):
    kinds = [e.kind for e in evs]
    last = evs[-1] if evs else None
    solver = last.solver if last else None
    facts = {"kinds": ",".join(kinds), "solver": solver, "mode": mode, "ending": last.kind if last else None}
    if not o.ok:
        ctx.probe("raised")
        d = lib.compare_datasets(before, model.results, exact=True)
        if d or before_term != model.runtime.termination_condition:
            ctx.fail("results-changed-by-failure", f"solve {o}, yet the results changed: {d}", **facts)
        if kinds and all(e.kind in ("ok", "tag", "okfile", "limit_sol", "limit_tag") for e in evs):
            ctx.fail("solution-refused", f"every solver request ended with a solution ({kinds}) but solve {o}", **facts)
        return
    res = model.results
    term = str(model.runtime.termination_condition)
    presented = bool(res.data_vars)
    if not evs:
        ctx.fail("no-request", "solve returned without asking the solver", **facts)
    if not presented:
        ctx.probe("empty")
        if term in lib.OPTIMAL_TERMS:
            ctx.fail("optimal-without-results", f"termination {term} but no results after {kinds}", **facts)
        if kinds[0] in ("ok", "tag", "okfile"):
            ctx.fail("solution-dropped", f"the solver returned an optimum ({kinds}) but no results are presented, termination {term}", **facts)
        return
    ctx.probe("presented")
    variables = list(map(str, model.backend.variables.data_vars))
    if mode == "base":
        if last.values is None:
            ctx.fail("results-without-solution", f"the solver ended with {last.kind} and returned no values, but results are presented with termination {term}", **facts)
        d = lib.check_values(res, last, variables)
        if d:
            ctx.fail("wrong-values", f"after {last.kind}: " + "; ".join(d), **facts)
        d = lib.termination_diff(term, [last])
        if d:
            ctx.fail("wrong-termination", d, **facts)
        obj = res.get(str(model.backend.objective))
        if obj is not None and not lib.near(float(obj), last.problem.evaluate({**last.values, **last.problem.fixed}), 1e-6, 1e-6):
            ctx.fail("wrong-objective", f"objective presented {float(obj)}, solution has {last.problem.evaluate(last.values)}", **facts)
    elif mode == "operate":
        wins = rolling.windows(model.inputs.timesteps.values, *op_config(model))
        if any(e.values is None for e in evs) and set(term.split(",")) <= set(lib.OPTIMAL_TERMS):
            ctx.fail("results-without-solution", f"the windows ended with {kinds}, but results are presented with termination {term}", **facts)
        d = rolling.check_results(res, evs, wins, variables)
        if d:
            ctx.fail("wrong-values", f"after {kinds}: " + "; ".join(d), **facts)
        d = lib.termination_diff(term, evs)
        if d:
            ctx.fail("wrong-termination", d, **facts)
    else:
        spores = [int(s) for s in res.spores.values]
        for s in spores:
            if s >= len(evs) or evs[s].values is None:
                ctx.fail("results-without-solution", f"SPORES run {s} returned no values ({kinds}) but is presented, termination {term}", **facts)
            d = lib.check_values(res.sel(spores=s), evs[s], variables)
            if d:
                ctx.fail("wrong-values", f"SPORES run {s} after {kinds}: " + "; ".join(d), **facts)
        d = lib.termination_diff(term, [evs[s] for s in spores])
        if d:
            ctx.fail("wrong-termination", d, **facts)


def op_config(model):
    return model.config.build.operate.window, model.config.build.operate.horizon
