"""C02: operate mode re-solves cleanly after any interrupted or failed run."""
from __future__ import annotations

from sim import canon, core, interrupt, lib, models, rolling
from sim.checks import c01

ID = "C02"
LEVEL = ("deterministic simulation: seeded histories of solves and rebuilds in which solver endings and interruptions at any function call hit any window; "
         "the last solve is compared window by window with the only solve of a fresh model")
RULE = ("one evaluation is one history of solves of one operate-mode model followed by a fault-free solve that is judged; nontrivial if an earlier solve was "
        "hit by a fault after its first window began; distinct runs differ in the recorded history")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary (seeded endings)", "the moment of an interruption (raised at the n-th call of a calliope function)"]

BAD = ["rc", "killed", "infeasible", "nofile", "limit_nosol", "noexec", "interrupt", "unbounded", "rc_sol"]
GOOD = ["ok", "tag", "limit_tag", "limit_sol"]
VARIANTS = 3


def variant(n, seed, windows):
    """The endings of a fault-free final solve."""
    rng = core.rng_for("variant", n, seed)
    # (an optimum after seeded storage levels may not exist, so the two are not mixed)
    kinds = [["ok"], ["tag"], ["tag", "limit_tag"]][n % 3]
    return [{"kind": rng.choice(kinds), "seed": rng.randrange(10**6)} for _ in range(windows)]


def groups(seed, tier):
    n_groups, n_plans = (8, 7) if tier == "quick" else (48, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        steps, minutes, window, horizon = [(6, 60, "2h", "2h"), (6, 60, "2h", "4h"), (5, 60, "2h", "3h"), (4, 60, "1h", "2h"), (4, 60, "2h", "2h"),
                                           (7, 60, "3h", "3h")][g % 6]
        d = models.system(rng, mode="operate", steps=steps, minutes=minutes, window=window, horizon=horizon, tiny=g % 8 != 5, nodes=rng.choice([1, 2]),
                          storage=g % 5 != 4)
        c01.enrich(rng, d, d["techs"]["dem"]["sink_use_equals"]["index"], "nan" if g % 4 == 3 else None)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                if k < 0.12:
                    ops.append({"op": "build"})
                elif k < 0.22:
                    ops.append({"op": "build", "interrupt": round(rng.random(), 4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
                else:
                    hit = rng.randrange(0, 7)
                    outs = [{"kind": rng.choice(GOOD[:3]), "seed": rng.randrange(10**6)} for _ in range(10)]
                    op = {"op": "solve", "outcomes": outs, "solver": rng.choice(["cbc", "cbc", "glpk"])}
                    if rng.random() < 0.55:
                        bad = rng.choice(BAD)
                        outs[min(hit, 6)] = {"kind": bad, "seed": 1}
                        if bad in ("infeasible", "limit_nosol", "nofile", "unbounded") and rng.random() < 0.5:
                            outs[min(hit, 6) + 1] = {"kind": rng.choice(BAD), "seed": 1}
                    else:
                        op["interrupt"] = round(rng.random(), 4)
                        op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
                    ops.append(op)
            ops.append({"op": "final", "variant": p % VARIANTS})
            plans.append({"ops": ops})
        out.append({"config": {"model": d, "seed": g}, "plans": plans})
    return out


def shrink(plan):
    for q in core.default_shrink(plan):
        if q["ops"] and q["ops"][-1]["op"] == "final":
            yield q
    for i, op in enumerate(plan["ops"]):
        for j, o in enumerate(op.get("outcomes", [])):
            if o["kind"] in GOOD and o["kind"] != "ok":
                q = models.clone(plan)
                q["ops"][i]["outcomes"][j] = {"kind": "ok"}
                yield q


def transcript(m, w, wins, outcomes, force):
    """What one solve asked of the solver, window by window, and presented."""
    n0 = len(w.events)
    lib.queue(w, outcomes)
    o = lib.attempt(m.solve, force=force, solver="cbc", postprocessing_active=True)
    w.outcomes.clear()
    evs = w.events[n0:]
    probs = [rolling.shifted_problem(e, wins[i]) if i < len(wins) else None for i, e in enumerate(evs)]
    return {"ok": o.ok, "how": repr(o), "kinds": [e.kind for e in evs], "problems": probs, "results": m.results.copy(deep=True),
            "termination": str(m.runtime.termination_condition)}


def prepare(config, ctx):
    w = ctx.world
    m = models.make(config["model"])
    cfg = config["model"]["config"]["build"]["operate"]
    wins = rolling.windows(m.inputs.timesteps.values, cfg["window"], cfg["horizon"])
    with interrupt.at() as use:
        m.build()
    w.watch(m)
    calls = {"build": use.calls}

    def once(n):
        def run():
            with interrupt.at() as use:
                t = transcript(m, w, wins, variant(n, config["seed"], len(wins)), False)
            t["calls"] = use.calls
            return t
        return run

    refs = []
    for n in range(VARIANTS):
        kind, t = ctx.fork(once(n))
        if kind != "ok" or not t["ok"] or len(t["kinds"]) != len(wins):
            ctx.fail("fresh-solve-failed", f"the only solve of a fresh model with endings {variant(n, config['seed'], len(wins))}: {kind} {t if kind != 'ok' else t['how']}")
        refs.append(t)
    calls["solve"] = refs[0]["calls"]
    return {"m": m, "wins": wins, "refs": refs, "calls": calls, "config": config}


def execute(base, plan, ctx):
    w, m, wins = ctx.world, base["m"], base["wins"]
    ctx.nontrivial = False
    for op in plan["ops"]:
        facts = {"windows": len(wins)}
        if op["op"] == "final":
            final(base, op, ctx, facts)
            continue
        results, term = m.results.copy(deep=True), m.runtime.termination_condition
        n0 = len(w.events)
        lib.queue(w, op.get("outcomes", []))
        n = int(op["interrupt"] * base["calls"][op["op"]]) if "interrupt" in op else None
        with interrupt.at(n, op.get("exc")) as use:
            if op["op"] == "build":
                o = lib.attempt(m.build, force=True)
            else:
                o = lib.attempt(m.solve, force=True, solver=op["solver"])
        w.outcomes.clear()
        if use.where:
            ctx.fault("interrupt:" + op["exc"])
        evs = w.events[n0:]
        kinds = [e.kind for e in evs]
        ctx.sim_seconds += lib.hours(m)
        ctx.log(op["op"], kinds, use.where, o.name, str(m.runtime.termination_condition))
        if use.where or any(k in BAD for k in kinds):
            ctx.nontrivial = True
        what = f"{op['op']} with endings {kinds}" + (f", interrupted in {use.where}" if use.where else "")
        if not o.ok:
            d = lib.compare_datasets(results, m.results, exact=True)
            if d or term != m.runtime.termination_condition:
                ctx.fail("earlier-results-touched", f"{what} {o}: results before and after differ: {d}, termination {term} -> {m.runtime.termination_condition}", **facts)
            ctx.probe("failure-reported")
        elif use.where:
            ctx.fail("interruption-swallowed", f"{what} returned normally", **facts)
        elif op["op"] == "solve" and any(e.values is None for e in evs):
            t = str(m.runtime.termination_condition)
            if set(t.split(",")) <= set(lib.OPTIMAL_TERMS):
                ctx.fail("failure-not-reported", f"{what}: termination {t}", **facts)
            ctx.probe("failure-in-termination")
        if op["op"] == "build" and not o.ok and not use.where:
            ctx.fail("build-failed", f"{what} {o}", **facts)


def final(base, op, ctx, facts):
    m, w, wins = base["m"], ctx.world, base["wins"]
    want = base["refs"][op["variant"]]
    got = transcript(m, w, wins, variant(op["variant"], base["config"]["seed"], len(wins)), True)
    ctx.sim_seconds += lib.hours(m)
    ctx.log("final", got["kinds"], got["how"], got["termination"])
    if not got["ok"]:
        ctx.fail("solve-again-failed", f"the fault-free solve {got['how']}", **facts)
    if len(got["problems"]) != len(want["problems"]):
        ctx.fail("other-windows", f"the fault-free solve asked the solver {len(got['problems'])} times, a fresh model {len(want['problems'])} times", **facts)
    for i, (a, b) in enumerate(zip(want["problems"], got["problems"])):
        if a is None or b is None:
            if (a is None) != (b is None):
                ctx.fail("other-window-problem", f"window {i} was posed over another number of timesteps than in a fresh model", **facts)
            continue
        d = canon.equivalent(a, b, w.solve3)
        if d:
            ctx.fail("other-window-problem", f"window {i}: fresh model vs this model: {d}", **facts)
        ctx.probe("window-problems-compared")
    d = lib.compare_datasets(want["results"], got["results"], rel=1e-6)
    if d:
        ctx.fail("other-results", f"fresh model vs this model: {'; '.join(d)}", **facts)
    if want["termination"] != got["termination"]:
        ctx.fail("other-termination", f"{want['termination']} vs {got['termination']}", **facts)
    ctx.probe("final-compared")
