"""C04: continuing SPORES equals having run them all in one go."""
from __future__ import annotations

import os
import pathlib

import numpy as np

from sim import canon, core, lib, models

ID = "C04"
LEVEL = ("deterministic simulation: seeded splits of a SPORES study into sessions that complete, stop, are interrupted or killed, each resumed in memory, from the model file "
         "or from the latest per-run file; every run's problem and results are compared with those of one uninterrupted study under the same solver answers")
RULE = ("one evaluation is one session of a split study; nontrivial if it continued earlier runs; distinct runs differ in where the sessions ended, how, and how they were resumed")
REAL = ["calliope (all of it)", "pyomo", "netCDF files on disk", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary (seeded answers and endings)", "process kills (the simulated process ends at a solver request)"]
ENDS = ["complete", "complete", "infeasible", "limit", "interrupt", "crash", "kill"]


def groups(seed, tier):
    n_groups, n_plans = (8, 8) if tier == "quick" else (64, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d = models.system(rng, mode="spores", steps=rng.choice([2, 3]), nodes=rng.choice([1, 2, 3]), tiny=g % 8 != 5, classes=["monetary", "co2"] if g % 4 == 1 else None,
                          feas=g % 3 == 2, conv=g % 3 == 0, supplies=rng.choice([2, 3]), cyclic=False)
        d.setdefault("data_definitions", {})["spores_slack"] = round(rng.uniform(0, 1), 3)
        for i, t in enumerate(sorted(d["techs"])):
            if i % 2 or t == "sup0":
                d["techs"][t]["track_some"] = rng.choice([True, True, False]) if t != "sup0" else True
        if g % 2:
            d["config"]["solve"]["spores"] = {"number": rng.choice([2, 3])}
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            total = rng.choice([2, 3, 4, 4, 5, 6])
            start = rng.choice(["spores", "spores", "base-memory", "base-file"]) if g % 2 == 0 else "spores"
            ops, at = [], -1 if start == "spores" else 0
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                stop = rng.randint(max(at, 0), total - 1)
                end = rng.choice(ENDS)
                resume = "perrun" if end == "kill" else rng.choice(["memory", "file", "file", "perrun"])
                ops.append({"op": "session", "stop": stop, "end": end, "resume": resume, "post_steps": rng.choice(["none", "none", "save", "csv"])})
                at = stop
            plans.append({"ops": ops, "total": total, "start": start, "rule": rng.choice(["integer", "integer", "relative_deployment", "random"]),
                          "track": rng.choice([None, "track_some"]), "threshold": rng.choice([0.1, 0.1, 0, 0.5]), "solver": rng.choice(["cbc", "cbc", "glpk"]),
                          "seeds": [rng.randrange(10**6) for _ in range(total + 1)], "kinds": [rng.choice(["tag", "tag", "ok"]) for _ in range(total + 1)]})
        out.append({"config": {"model": d, "from_base": g % 2 == 0}, "plans": plans})
    return out


def prepare(config, ctx):
    out = {"config": config}
    d = models.clone(config["model"])
    d["config"]["init"]["mode"] = "base"
    for name, d in (("spores", config["model"]), ("base", d)):
        if name == "base" and not config["from_base"]:
            continue
        out[name] = models.make(d)
        out[name].build()
        ctx.world.watch(out[name])
    return out


def answers(plan, first):
    return [{"kind": k, "seed": s} for k, s in zip(plan["kinds"][first:], plan["seeds"][first:])]


def draw(plan, n):
    """The state of the random generator after run n is part of the study."""
    np.random.seed(plan["seeds"][min(n, plan["total"])] % 2**31)


def solve(ctx, plan, m, number, latest, outcomes, first, save=None, die_at=None):
    """Solve; (outcome, {run: event})."""
    w = ctx.world
    lib.queue(w, outcomes)
    n0 = len(w.events)
    run = lambda ev: first + ev.idx - n0

    def hook(ev):
        if die_at is not None and run(ev) == die_at:
            os._exit(77)
        draw(plan, run(ev))

    w.hooks[:] = [hook]
    draw(plan, first - 1)
    o = lib.attempt(m.solve, force=True, solver=plan["solver"],
                    spores={"number": number, "use_latest_results": latest, "scoring_algorithm": plan["rule"], "tracking_parameter": plan["track"],
                            "score_threshold_factor": plan["threshold"], "save_per_spore_path": None if save is None else str(save)})
    w.hooks.clear()
    w.outcomes.clear()
    ctx.sim_seconds += lib.hours(m) * max(1, len(w.events) - n0)
    return o, {run(e): e for e in w.events[n0:]}


def held(m):
    """Latest run number the model's results hold (-1: none)."""
    if "spores" in m.results.dims:
        return int(m.results.spores.max())
    return 0 if m.results.data_vars else -1


def execute(base, plan, ctx):
    import calliope

    ctx.evaluations = 0
    total = plan["total"]
    m = base["spores"]

    def study():
        o, evs = solve(ctx, plan, m, total, False, answers(plan, 0), 0)
        if not o.ok or len(evs) != total + 1 or sorted(map(int, m.results.spores.values)) != list(range(total + 1)):
            if all(e.values is not None for e in evs.values()):
                ctx.fail("study-failed", f"an uninterrupted study of {total} runs: {o}, {len(evs)} solver requests")
            return None  # the optimum of some run does not exist
        return m.results.load(), {n: e.problem for n, e in evs.items()}

    kind, study = ctx.fork(study)
    if kind != "ok":
        raise core.HarnessError(f"study: {kind} {study}")
    if study is None:
        return
    straight, want = study
    runs = pathlib.Path(ctx.scratch) / "runs"
    if plan["start"] != "spores":
        m = from_base(base, plan, ctx, straight)
    ops = [*plan["ops"], {"op": "session", "stop": total, "end": "complete", "resume": "memory", "post_steps": "none"}]
    for i, op in enumerate(ops):
        last = held(m)
        stop = max(op["stop"], last, 1 if op["end"] == "complete" else 0)
        if op["end"] == "complete" and stop <= last:
            continue
        if op["end"] != "complete" and stop >= total:
            continue
        ctx.evaluations += 1
        ctx.nontrivial = ctx.nontrivial or last >= 0
        fresh = last < 0
        first = 0 if fresh else last + 1
        save = runs if op["end"] == "kill" or op["resume"] == "perrun" else None
        facts = {"end": op["end"], "resumed": ops[i - 1]["resume"] if i else plan["start"], "rule": plan["rule"]}
        outs = answers(plan, first)
        if op["end"] in ("infeasible", "limit", "interrupt", "crash"):
            outs[stop + 1 - first] = {"kind": {"infeasible": "infeasible", "limit": "limit_nosol", "interrupt": "interrupt", "crash": "rc"}[op["end"]]}
        number = stop if op["end"] == "complete" else total
        before = m.results.copy(deep=True)
        if op["end"] == "kill":
            kind, _ = ctx.fork(lambda: solve(ctx, plan, m, number, not fresh, outs, first, save, die_at=stop + 1) and None)
            if kind != "died":
                ctx.fail("runs-missing", f"run {stop + 1} was never posed", **facts)
            ctx.fault("process killed")
            got, raised = {}, True
        else:
            o, got = solve(ctx, plan, m, number, not fresh, outs, first, save)
            raised = not o.ok
            if raised and op["end"] in ("complete", "infeasible"):
                ctx.fail("session-failed", f"runs {first} to {number}: {o}", **facts)
        ctx.log("session", op["end"], first, stop, sorted(got), op["resume"], [e.kind for e in got.values()])
        for n, ev in got.items():
            d = canon.equivalent(want[n], ev.problem, ctx.world.solve3)
            if d:
                ctx.fail("different-problem", f"run {n}, one go vs continued: {d}", **facts)
            ctx.probe("problems")
        if not raised:
            known = {int(s) for s in before.spores.values} if "spores" in before.dims else set()
            expect = sorted((known or {0}) | set(range(first, stop + 1)))
            have = sorted(map(int, m.results.spores.values)) if "spores" in m.results.dims else None
            if have != expect:
                ctx.fail("wrong-runs", f"results hold runs {have}, expected {expect}", **facts)
        compare(ctx, straight, m.results, before, facts)
        if op["post_steps"] == "save":
            m.to_netcdf(pathlib.Path(ctx.scratch) / f"other{i}.nc")
        elif op["post_steps"] == "csv":
            m.to_csv(pathlib.Path(ctx.scratch) / f"csv{i}")
        if op["resume"] == "file":
            f = pathlib.Path(ctx.scratch) / f"s{i}.nc"
            m.to_netcdf(f)
            m = calliope.read_netcdf(f)
            m.build()
            ctx.world.watch(m)
            ctx.probe("resumed-from-file")
        elif op["resume"] == "perrun" and runs.exists():
            files = {int(f.stem.split("_")[1]): f for f in runs.glob("spore_*.nc")}
            ctx.log("files", sorted(files))
            if not files:
                if stop >= 0 and first <= stop:
                    ctx.fail("no-files", f"no per-run files after runs {first} to {stop}", **facts)
                continue
            r = calliope.read_netcdf(files[max(files)])
            m = calliope.Model(inputs=models.make(base["config"]["model"]).inputs, attrs=r.all_attrs, results=r.results)
            m.build()
            ctx.world.watch(m)
            ctx.probe("resumed-from-run-file")
            if held(m) != max(files):
                ctx.fail("wrong-runs", f"spore_{max(files)}.nc holds run {held(m)}", **facts)
            compare(ctx, straight, m.results, None, facts)
    if held(m) != total:
        ctx.fail("wrong-runs", f"the study ended with runs up to {held(m)} of {total}")


def from_base(base, plan, ctx, straight):
    """A SPORES model that holds the results of the base model."""
    import calliope

    b = base["base"]
    lib.queue(ctx.world, answers(plan, 0)[:1])
    b.solve(solver=plan["solver"])
    if plan["start"] == "base-file":
        f = pathlib.Path(ctx.scratch) / "base.nc"
        b.to_netcdf(f)
        m = calliope.read_netcdf(f, mode="spores")
    else:
        m = calliope.Model(inputs=b.inputs, results=b.results, attrs=b.all_attrs, mode="spores")
    m.build()
    ctx.world.watch(m)
    return m


def compare(ctx, straight, got, before, facts):
    if "spores" in got.dims:
        for n in map(int, got.spores.values):
            a, b = straight.sel(spores=n), got.sel(spores=n)
            if n == 0:
                # a baseline taken from base mode knows nothing of scores
                names = [v for v in a.data_vars if v in b.data_vars and b[v].notnull().any()]
                lost = sorted(str(v) for v in a.data_vars if v not in names and a[v].notnull().any() and not (v == "min_spores" or str(v).startswith("spores_")))
                if lost:
                    ctx.fail("results-missing", f"run 0 lacks {lost}", **facts)
                a, b = a[names], b[names]
            # arrays that do not apply to the run are absent, or missing throughout next to runs they apply to
            a, b = (x[[v for v in x.data_vars if x[v].notnull().any()]] for x in (a, b))
            d = lib.compare_datasets(a, b, attrs=False, rel=1e-9)
            if d:
                ctx.fail("different-results", f"run {n}, one go vs continued: {'; '.join(d)}", **facts)
            ctx.probe("results")
    if before is not None and "spores" in before.dims and before is not got:
        keep = before.spores.values
        d = lib.compare_datasets(before, got.sel(spores=keep)[list(before.data_vars)], attrs=False, exact=True)
        if d:
            ctx.fail("completed-runs-changed", "; ".join(d), **facts)
