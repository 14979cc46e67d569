"""C03: each SPORES iteration solves the documented alternative-generation problem."""
from __future__ import annotations

import math

import numpy as np

from sim import canon, core, lib, models, spores

ID = "C03"
LEVEL = ("deterministic simulation: seeded histories of SPORES solves, continuations, input changes and failed solves with seeded capacities from the solver; every "
         "problem posed to the solver and every stored run is compared with an independent statement of the scoring and cost rules applied to the solver's own answers")
RULE = ("one evaluation is one SPORES solve call: each run's problem, stored scores, costs and values are judged; nontrivial if two or more runs were posed; distinct "
        "runs differ in the recorded history of scores and endings")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary (seeded answers and endings)"]

CALM = ["tag", "tag", "tag", "ok"]
BAD = ["rc", "infeasible", "limit_nosol", "interrupt", "nofile", "unbounded"]


def groups(seed, tier):
    n_groups, n_plans = (8, 13) if tier == "quick" else (64, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d = models.system(rng, mode="spores", steps=rng.choice([2, 3, 4]), nodes=rng.choice([1, 2, 3]), tiny=g % 8 != 6, classes=["monetary", "co2"] if g % 3 == 1 else None,
                          feas=g % 4 == 2, conv=g % 3 == 0, supplies=rng.choice([2, 3]))
        dd = d.setdefault("data_definitions", {})
        dd["spores_slack"] = round(rng.uniform(0, 1), 3)
        techs = d["techs"]
        for i, t in enumerate(sorted(techs)):
            if rng.random() < 0.5:
                techs[t]["track_some"] = rng.choice([True, True, 1, False]) if g % 2 else True
        techs["sup0"]["track_some"] = True
        if g % 4 == 3:
            techs["sup1"].pop("flow_cap_max")
        if rng.random() < 0.5:
            d["nodes"]["n0"]["techs"]["sup0"] = {"flow_cap_max": round(rng.uniform(20, 90), 2)}
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops, total = [], 0
            for i in range(rng.randint(1, 4)):
                if ops and rng.random() < 0.35:
                    ops.append({"op": "update", "what": rng.choice(["slack", "cost", "demand"]), "factor": round(rng.uniform(0.3, 1.7), 3)})
                number = rng.choice([1, 2, 2, 3, 4])
                latest = bool(ops) and rng.random() < 0.4
                if latest:
                    number = total + rng.choice([-1, 0, 1, 2, 2, 3])
                rule = rng.choice(["integer", "integer", "relative_deployment", "random"] if latest else ["integer", "relative_deployment", "random", "evolving_average"])
                outs = [{"kind": rng.choice(CALM), "seed": rng.randrange(10**6)} for _ in range(8)]
                fail = rng.random() < 0.25
                if fail:
                    outs[rng.randrange(4)] = {"kind": rng.choice(BAD + ["limit_tag"]), "seed": rng.randrange(10**6)}
                post = not (rng.random() < 0.08)
                ops.append({"op": "solve", "number": number, "latest": latest, "rule": rule, "track": rng.choice([None, "track_some"]), "threshold": rng.choice([0.1, 0.1, 0, 0.5, 0.9]),
                            "solver": rng.choice(["cbc", "cbc", "glpk"]), "outcomes": outs, "post": post, "rng": rng.randrange(2**31)})
                total = max(total, number)
            plans.append({"ops": ops})
        out.append({"config": {"model": d}, "plans": plans})
    return out


def shrink(plan):
    yield from core.default_shrink(plan)
    for i, op in enumerate(plan["ops"]):
        for j, o in enumerate(op.get("outcomes", [])):
            if o["kind"] != "ok":
                q = models.clone(plan)
                q["ops"][i]["outcomes"][j] = {"kind": "ok"}
                yield q


def prepare(config, ctx):
    m = models.make(config["model"])
    attrs = m.all_attrs.model_copy(deep=True)
    inputs = m.inputs.copy(deep=True)
    m.build()
    ctx.world.watch(m)
    return {"m": m, "p0": lib.problem_of(m), "inputs": inputs, "attrs": attrs}


def rebuilt(base, inputs):
    import calliope

    f = calliope.Model(inputs.copy(deep=True), base["attrs"].model_copy(deep=True))
    f.build(force=True)
    return lib.problem_of(f)


def execute(base, plan, ctx):
    w, m, p0 = ctx.world, base["m"], base["p0"]
    inputs = base["inputs"].copy(deep=True)
    slack = float(inputs["spores_slack"])
    runs = None  # {run number: (event, scores, cost)} of the results held
    stored = True
    ctx.evaluations, ctx.nontrivial = 0, False
    for op in plan["ops"]:
        if op["op"] == "update":
            f = op["factor"]
            if op["what"] == "slack":
                slack = f
                m.backend.update_input("spores_slack", f)
            else:
                name = "cost_flow_cap" if op["what"] == "cost" else "sink_use_equals"
                f = f if op["what"] == "cost" else min(f, 1.0)
                new = m.backend.inputs[name] * f
                m.backend.update_input(name, new)
                inputs[name] = (inputs[name] * f).assign_attrs(inputs[name].attrs)
                p0 = rebuilt(base, inputs)
            ctx.log("update", op["what"], f)
            continue
        runs, stored = solve(base, ctx, w, m, op, p0, inputs, slack, runs, stored)


def solve(base, ctx, w, m, op, p0, inputs, slack, runs, stored):
    ctx.evaluations += 1
    facts = {"rule": op["rule"], "latest": op["latest"], "track": op["track"]}
    lib.queue(w, op["outcomes"])
    n0 = len(w.events)
    np.random.seed(op["rng"])
    o = lib.attempt(m.solve, force=True, solver=op["solver"], postprocessing_active=op["post"],
                    spores={"number": op["number"], "use_latest_results": op["latest"], "scoring_algorithm": op["rule"], "tracking_parameter": op["track"],
                            "score_threshold_factor": op["threshold"], "save_per_spore_path": None})
    w.outcomes.clear()
    evs = w.events[n0:]
    ctx.sim_seconds += lib.hours(m) * max(1, len(evs))
    ctx.log("solve", op["rule"], op["latest"], op["track"], [e.kind for e in evs], o.name)
    if len(evs) > 1:
        ctx.nontrivial = True
    is_tracked = spores.tracked(inputs, op["track"])
    limitless = op["rule"] == "relative_deployment" and any(
        is_tracked(*spores.split(k)) and math.isinf(spores.lookup(inputs["flow_cap_max"], *spores.split(k))) for k in p0.vars if k.startswith("flow_cap["))
    continued = op["latest"] and runs is not None
    if continued:
        last = max(runs)
        if not stored and last > 0:
            if o.ok or evs:
                ctx.fail("continued-without-scores", f"the scores of run {last} are not in the results, solve {o} after {len(evs)} solver requests", **facts)
            return runs, stored
        if last >= op["number"]:
            if o.ok or evs:
                ctx.fail("continued-past-the-number", f"runs up to {last} are there, {op['number']} asked for, solve {o} after {len(evs)} solver requests", **facts)
            return runs, stored
        ev, scores, cost = runs[last]
        history = [spores.caps_of(ev.values)]
        if math.isinf(cost):
            cost = ev.problem.evaluate(ev.values)  # as it was when the baseline was solved
        done = dict(runs)
        number = last
        todo = list(evs)
    else:
        if not evs:
            if op["latest"]:
                return runs, stored  # no results to use
            ctx.fail("nothing-posed", f"solve {o} without asking the solver", **facts)
        ev = evs[0]
        d = canon.equivalent(spores.baseline_problem(p0), ev.problem, w.solve3)
        if d:
            ctx.fail("wrong-baseline-problem", f"expected vs posed: {d}", **facts)
        ctx.probe("baseline-problems")
        if ev.values is None:
            if o.ok:
                ctx.fail("no-baseline", f"the baseline ended with {ev.kind}, solve returned", **facts)
            return runs, stored
        cost = ev.problem.evaluate(ev.values)
        scores, history, number = {}, [spores.caps_of(ev.values)], 0
        done = {0: (ev, {}, math.inf)}
        todo = evs[1:]
    for ev in todo:
        number += 1
        if limitless:
            ctx.fail("scored-without-limit", f"run {number} was posed although a tracked technology has no flow_cap_max", **facts)
        want = spores.next_scores(op["rule"], scores, history, is_tracked, inputs["flow_cap_max"], op["threshold"])
        got = spores.scores_of(ev.problem)
        if want is None:
            d = "; ".join(spores.random_step(scores, got, history[-1], is_tracked)[:4])
            if d:
                ctx.fail("wrong-scores", f"run {number}, random rule: {d}", **facts)
            want = got
        d = canon.equivalent(spores.run_problem(p0, want, cost, slack), ev.problem, w.solve3)
        if d:
            ctx.fail("wrong-run-problem", f"run {number}, {op['rule']} rule, cost limit {cost} * (1 + {slack}): expected vs posed: {d}", **facts)
        ctx.probe("run-problems")
        if ev.values is None:
            break
        scores = want
        history.append(spores.caps_of(ev.values))
        done[number] = (ev, scores, cost)
    ctx.log("scores", sorted((k, round(v, 9)) for k, v in scores.items()))
    if not o.ok:
        if all(e.values is not None for e in evs) and not limitless:
            ctx.fail("solve-raised", f"every run ended with a solution ({[e.kind for e in evs]}), solve {o}", **facts)
        return runs, stored
    if max(done) != op["number"] and all(e.values is not None for e in evs):
        ctx.fail("runs-missing", f"runs up to {max(done)} were posed, {op['number']} asked for", **facts)
    check_stored(ctx, m, done, op, facts)
    return done, op["post"] and (stored or not continued)


def check_stored(ctx, m, done, op, facts):
    res = m.results
    if "spores" not in res.dims or [int(s) for s in res.spores.values] != sorted(done):
        ctx.fail("wrong-runs-stored", f"results hold runs {res.spores.values.tolist() if 'spores' in res.coords else None}, expected {sorted(done)}", **facts)
    names = list(map(str, m.backend.variables.data_vars))
    for n, (ev, scores, cost) in done.items():
        r = res.sel(spores=n)
        d = lib.check_values(r, ev, names)
        if d:
            ctx.fail("wrong-values-stored", f"run {n}: {'; '.join(d)}", **facts)
        if not op["post"] or "spores_score_cumulative" not in r:
            continue
        d = lib.compare_labels(spores.scores_in(r), scores)
        if d:
            ctx.fail("wrong-scores-stored", f"run {n}: {'; '.join(d)}", **facts)
        got = float(r["spores_baseline_cost_tracked"])
        if not lib.near(got, cost, 1e-7):
            ctx.fail("wrong-cost-stored", f"run {n}: baseline cost {got}, in force was {cost}", **facts)
        ctx.probe("runs-stored")
