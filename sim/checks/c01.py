"""C01: operate mode solves every rolling window exactly once and in order."""
from __future__ import annotations

import math

from sim import canon, core, lib, models, rolling

ID = "C01"
LEVEL = ("deterministic simulation: seeded window/horizon geometries and solver endings; every problem that reaches the solver is compared with the "
         "problem of a stand-alone model of that horizon, and every result with the answer of its own window")
RULE = ("one evaluation is one operate-mode solve: per window the posed problem, carried storage and presented values are judged; nontrivial if it has "
        "more than one window; distinct runs differ in their history of window endings and carried storage levels")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary: seeded answers and time limits are written by the simulator in the solver's own formats"]
ASSUMPTIONS = ["the stand-alone reference is built by calliope itself from the sliced inputs, so what the two builds get wrong alike is not seen"]

GEOMETRY = [  # steps, minutes, window, horizon
    (6, 60, "2h", "2h"), (6, 60, "2h", "4h"), (5, 60, "2h", "3h"), (7, 60, "3h", "3h"), (4, 60, "1h", "2h"), (5, 30, "1h", "90min"),
    (4, 60, "4h", "4h"), (3, 60, "12h", "12h"), (6, 120, "4h", "8h"), (5, 60, "2h", "5h"), (8, 15, "30min", "1h"), (6, 60, "3h", "4h")]


def enrich(rng, d, idx, gaps):
    """More time-varying inputs than the plain system has."""
    def series(lo, hi, gap=0.0, inf=0.0):
        out = []
        for _ in idx:
            k = rng.random()
            out.append(float("nan") if k < gap else float("inf") if k < gap + inf else round(rng.uniform(lo, hi), 3))
        return models.ts(out, idx)

    techs = d["techs"]
    if rng.random() < 0.7:
        techs["sup0"]["flow_out_eff"] = series(0.6, 1.0)
    if rng.random() < 0.5:
        data = [[round(rng.uniform(1, 9), 2)] for _ in idx]
        techs["sup1"]["cost_flow_out"] = {"data": data, "dims": ["timesteps", "costs"], "index": [[t, "monetary"] for t in idx]}
        techs["sup1"]["cost_flow_out"] = {"data": [x[0] for x in data], "dims": ["timesteps", "costs"], "index": [[t, "monetary"] for t in idx]}
    if "sto" in techs and rng.random() < 0.5:
        techs["sto"]["flow_in_eff"] = series(0.8, 1.0)
    if "sto" in techs and rng.random() < 0.3:
        techs["sto"].pop("storage_initial")
        for n in d["nodes"].values():
            if n["techs"].get("sto"):
                n["techs"]["sto"] = None
    if "sto" in techs and rng.random() < 0.4:
        techs["sto2"] = models.clone(techs["sto"])
        techs["sto2"].update(name="second storage", storage_cap=round(rng.uniform(3, 9), 2))
        first = next(iter(d["nodes"].values()))
        first["techs"]["sto2"] = None
    if rng.random() < 0.4:
        d["config"]["init"]["math_paths"] = {**d["config"]["init"].get("math_paths", {}), "extra": models.EXTRA}
        d["config"]["init"]["extra_math"] = ["extra"]
        techs["sup1"]["outage"] = models.ts([rng.random() < 0.4 for _ in idx], idx)
        if rng.random() < 0.6:
            techs["sup0"]["must_run_level"] = series(0, 6)
    if gaps:
        techs["sup1"]["source_use_max"] = series(1, 20, gap=0.35 if gaps != "inf" else 0.0, inf=0.35 if gaps == "inf" else 0.0)


def groups(seed, tier):
    n_groups, n_plans = (10, 10) if tier == "quick" else (80, 40)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        steps, minutes, window, horizon = GEOMETRY[g % len(GEOMETRY)] if g < 2 * len(GEOMETRY) else rng.choice(GEOMETRY)
        index = None
        if g % 7 == 3:
            # unequal steps, one in every window
            window, horizon, minutes = "3h", rng.choice(["3h", "6h"]), 60
            index = [models.stamps(12, minutes=60)[i] for i in (0, 1, 3, 5, 6, 9, 10, 11)]
            steps = len(index)
        d = models.system(rng, mode="operate", steps=steps, index=index, minutes=minutes, window=window, horizon=horizon, tiny=g % 5 != 4,
                          storage=g % 6 != 5, nodes=rng.choice([1, 2, 2, 3]), start=rng.choice(["2005-01-01 00:00", "2005-02-28 22:30"]))
        idx = d["techs"]["dem"]["sink_use_equals"]["index"]
        enrich(rng, d, idx, [None, None, "nan", None, "inf", None, None, "nan"][g % 8])
        if g % 5 in (1, 2):
            d = models.scaled(d, rng.choice([1e-3, 0.01, 1e3]))
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            kinds = ["ok"] if p == 0 else ["tag"] if p == 1 else ["ok", "ok", "okfile"] if p == 2 else ["ok", "tag", "tag", "limit_tag", "limit_sol"]
            limits = "limit_tag" in kinds
            ops = [{"op": "solve", "solver": rng.choice(["cbc", "cbc" if limits else "glpk"]) if p else "cbc", "post": rng.random() < 0.1,
                    "outcomes": [{"kind": rng.choice(kinds), "seed": rng.randrange(10**6)} for _ in range(16)]}]
            if rng.random() < 0.2:
                ops.append({**ops[0], "outcomes": [{"kind": rng.choice(kinds), "seed": rng.randrange(10**6)} for _ in range(16)]})
            plans.append({"ops": ops})
        out.append({"config": {"model": d}, "plans": plans})
    return out


def shrink(plan):
    yield from core.default_shrink(plan)
    for i, op in enumerate(plan["ops"]):
        for j, o in enumerate(op["outcomes"]):
            if o["kind"] != "ok":
                q = models.clone(plan)
                q["ops"][i]["outcomes"][j] = {"kind": "ok"}
                yield q


def prepare(config, ctx):
    m = models.make(config["model"])
    full = m.inputs.copy(deep=True)
    attrs = m.all_attrs
    cfg = config["model"]["config"]["build"]["operate"]
    wins = rolling.windows(full.timesteps.values, cfg["window"], cfg["horizon"])
    m.build()
    ctx.world.watch(m)
    first = lib.problem_of(m)
    storages = sorted({rolling.split_time(k, set(wins[0].horizon))[1] for k in first.vars if k.startswith("storage[")})
    caps = {}
    if storages:
        cap = full["storage_cap"]
        for s in storages:
            n, t = s.split(",")
            c = cap.sel(techs=t)
            caps[s] = float(c.sel(nodes=n) if "nodes" in c.dims else c)
    refs = [rolling.Reference(full, attrs.model_copy(deep=True), w, storages, first=w is wins[0]) for w in wins]
    return {"m": m, "wins": wins, "refs": refs, "caps": caps, "storages": storages}


def execute(base, plan, ctx):
    w, m, wins = ctx.world, base["m"], base["wins"]
    ctx.evaluations = 0
    ctx.nontrivial = len(wins) > 1
    for n, op in enumerate(plan["ops"]):
        n0 = len(w.events)
        lib.queue(w, op["outcomes"])
        o = lib.attempt(m.solve, force=n > 0, solver=op["solver"], postprocessing_active=op["post"])
        w.outcomes.clear()
        evs = w.events[n0:]
        ctx.evaluations += 1
        ctx.sim_seconds += lib.hours(m)
        kinds = [e.kind for e in evs]
        facts = {"windows": len(wins)}
        ctx.log("solve", op["solver"], kinds, o.name)
        # what each window was asked to solve
        levels = None
        for i, ev in enumerate(evs):
            if i >= len(wins):
                ctx.fail("too-many-windows", f"the solver was asked {len(evs)} times for {len(wins)} windows", **facts)
            got = rolling.shifted_problem(ev, wins[i])
            if got is None:
                ctx.fail("wrong-horizon", f"window {i} of {len(wins)} was posed over {len(rolling.event_stamps(ev))} timesteps, its horizon has "
                         f"{len(wins[i].horizon)}", **facts)
            want = base["refs"][i].at(levels)
            d = canon.equivalent(want, got, w.solve3)
            if d:
                ctx.fail("wrong-problem", f"window {i} ({wins[i].horizon[0]} to {wins[i].horizon[-1]}, storage carried {levels}): "
                         f"stand-alone model vs problem posed: {d}", **facts)
            ctx.probe("window-problems-compared")
            if ev.values is None:
                break
            end = rolling.end_storage(ev, wins[i])
            levels = {s: end.get(s, 0.0) / base["caps"][s] for s in base["storages"]}
            ctx.log("carried", i, {k: round(v, 9) for k, v in levels.items()})
        usable = all(e.values is not None for e in evs)
        if not o.ok:
            if usable:
                ctx.fail("solve-raised", f"every window request ended with a solution ({kinds}) but solve {o}", **facts)
            continue
        if not usable:
            continue  # judged by C06
        if len(evs) != len(wins):
            ctx.fail("windows-missing", f"{len(evs)} solver requests for {len(wins)} windows", **facts)
        d = rolling.check_results(m.results, evs, wins, list(map(str, m.backend.variables.data_vars)))
        if d:
            ctx.fail("wrong-results", f"after {kinds}: " + "; ".join(d), **facts)
        d = check_costs(m, evs, wins)
        if d:
            ctx.fail("wrong-costs", f"after {kinds}: " + "; ".join(d), **facts)
        d = lib.termination_diff(m.runtime.termination_condition, evs)
        if d:
            ctx.fail("wrong-termination", d, **facts)
        if any(e.kind.startswith("limit") for e in evs) and e_glpk_free(evs) and str(m.runtime.termination_condition) == "optimal":
            ctx.fail("limit-not-reported", f"windows ended with {kinds}, the model says optimal", **facts)
        ctx.probe("results-compared")


def e_glpk_free(evs):
    return all(e.solver != "glpk" or not e.kind.startswith("limit") for e in evs)


def check_costs(m, evs, wins):
    """The objective value presented at every kept timestep is that of its window's optimisation."""
    name = str(m.backend.objective)
    if name not in m.results or "timesteps" not in m.results[name].dims:
        return []
    out = []
    vals = {canon.fmt_coord(t): float(m.results[name].sel(timesteps=t)) for t in m.results.timesteps.values}
    for ev, win in zip(evs, wins):
        want = ev.problem.evaluate({**ev.values, **ev.problem.fixed})
        for t in win.kept:
            if not lib.near(vals[t], want, 1e-6, 1e-6):
                out.append(f"{name} at {t}: {vals[t]}, window's optimum {want}")
    return out[:3]
