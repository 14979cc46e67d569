"""C16: shadow prices come from the solve they are reported with."""
from __future__ import annotations

from sim import core, lib, models, rolling

ID = "C16"
LEVEL = ("deterministic simulation: seeded histories of solves that request different shadow prices of different solvers with seeded dual values and "
         "failures in between; every reported shadow price is compared with the dual the solver returned for that very request")
RULE = ("one evaluation is one solve call of a history; a run is nontrivial if the request, the solver or the ending changed between solves that "
        "reported duals; distinct runs differ in the recorded history of requests and reported prices")
REAL = ["calliope (all of it)", "pyomo (LP writer, solution readers, dual suffixes)", "glpsol for the true duals"]
STUB = ["the solver process boundary (seeded endings, primal and dual values)"]

CONSTRAINTS = ["system_balance", "flow_out_max", "storage_max", "balance_demand", "balance_storage", "symmetric_transmission", "balance_supply_no_storage"]
BAD = ["infeasible", "limit_nosol", "rc", "nofile", "interrupt", "rc_sol", "noexec"]


def groups(seed, tier):
    n_groups, n_plans = (8, 10) if tier == "quick" else (64, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        mode = ["base", "operate", "base", "spores", "base", "operate", "milp", "base"][g % 8]
        d = models.system(rng, mode=mode if mode != "milp" else "base", steps=rng.choice([3, 4]) if mode != "operate" else 5, nodes=2, window="2h", horizon=rng.choice(["2h", "4h"]),
                          tiny=mode != "milp" and g % 8 != 4, milp=mode == "milp")
        if mode == "spores":
            d.setdefault("data_definitions", {})["spores_slack"] = 0.5
            d["config"]["solve"]["spores"] = {"number": 2}
        if rng.random() < 0.3:
            d["config"]["solve"]["shadow_prices"] = ["system_balance"]
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(3, 6 if mode != "spores" else 4)):
                k = rng.random()
                if k < 0.08:
                    ops.append({"op": "build"})
                    continue
                if k < 0.2 and mode != "operate":
                    ops.append({"op": "update", "what": rng.choice(["lookup", "parameter"])})
                    continue
                if k < 0.28:
                    ops.append({"op": "direct", "what": rng.choice(["activate", "deactivate", "track", "track"]),
                                "names": sorted(rng.sample(CONSTRAINTS, rng.randint(0, 2)))})
                    continue
                n = {"operate": 3, "spores": 3}.get(mode, 1)
                outs = [{"kind": rng.choice(["tag", "tag", "ok"]), "seed": rng.randrange(10**6)} for _ in range(n)]
                if rng.random() < 0.25:
                    outs[rng.randrange(n)] = {"kind": rng.choice(BAD), "seed": 1}
                req = sorted(rng.sample(CONSTRAINTS, rng.choice([0, 1, 1, 2, 3])))
                if rng.random() < 0.15:
                    req.append("no_such_constraint")
                op = {"op": "solve", "solver": rng.choice(["glpk", "glpk", "cbc"]), "outcomes": outs, "post": rng.random() < 0.3}
                if rng.random() < 0.85:
                    op["prices"] = req
                ops.append(op)
            plans.append({"ops": ops})
        out.append({"config": {"model": d, "mode": mode}, "plans": plans})
    return out


def prepare(config, ctx):
    m = models.make(config["model"])
    m.build()
    ctx.world.watch(m)
    return {"m": m, "mode": config["mode"]}


def prices_of(results):
    """{constraint: array} of every shadow price presented."""
    return {str(n)[len("shadow_price_"):]: results[n] for n in results.data_vars if str(n).startswith("shadow_price_")}


def execute(base, plan, ctx):
    w, m, mode = ctx.world, base["m"], base["mode"]
    ctx.evaluations, ctx.nontrivial = 0, False
    asked, last = list(m.config.solve.shadow_prices), None
    for op in plan["ops"]:
        if op["op"] == "build":
            m.build(force=True)
            continue
        if op["op"] == "update":
            if op["what"] == "lookup":
                name = "cyclic_storage"
                val = ~m.backend.inputs[name] if m.backend.inputs[name].dtype == bool else m.backend.inputs[name]
            else:
                name, val = "cost_flow_out", m.backend.inputs["cost_flow_out"] * 1.25
            o = lib.attempt(m.backend.update_input, name, val)
            ctx.log("update", name, o.name)
            continue
        if op["op"] == "direct":
            sp = m.backend.shadow_prices
            o = lib.attempt(sp.track_constraints, op["names"]) if op["what"] == "track" else lib.attempt(getattr(sp, op["what"]))
            ctx.log("direct", op["what"], op["names"], o.name)
            continue
        ctx.evaluations += 1
        kw = {"force": True, "solver": op["solver"], "postprocessing_active": op["post"]}
        if "prices" in op:
            kw["shadow_prices"] = op["prices"]
        n0 = len(w.events)
        before = m.results.copy(deep=True)
        lib.queue(w, op["outcomes"])
        o = lib.attempt(m.solve, **kw)
        w.outcomes.clear()
        if o.ok and "prices" in op:
            asked = list(op["prices"])
        evs = w.events[n0:]
        kinds = [e.kind for e in evs]
        ctx.sim_seconds += lib.hours(m)
        state = (op["solver"], tuple(asked), tuple(kinds))
        if last is not None and last != state:
            ctx.nontrivial = True
        last = state
        got = prices_of(m.results)
        ctx.log("solve", op["solver"], asked, kinds, o.name, {k: len(lib.da_labels(k, v)) for k, v in got.items()})
        facts = {"solver": op["solver"], "mode": mode, "kinds": ",".join(kinds)}
        if not o.ok:
            d = lib.compare_datasets(before, m.results, exact=True)
            if d:
                ctx.fail("results-changed-by-failure", f"solve {o}: {d}", **facts)
            continue
        if not m.results.data_vars:
            continue
        judge(ctx, m, mode, asked, evs, got, facts)


def by_constraint(duals, names):
    out = {n: {} for n in names}
    for lab, v in (duals or {}).items():
        n = lab.partition("[")[0]
        if n in out:
            out[n][lab] = v
    return out


def judge(ctx, m, mode, asked, evs, got, facts):
    extra = set(got) - set(asked)
    if extra:
        ctx.fail("unrequested-prices", f"shadow prices of {sorted(extra)} are presented, requested were {asked}", **facts)
    valid = [n for n in asked if n in m.backend.constraints]
    threshold = m.config.solve.zero_threshold

    def zeroed(v):
        return 0.0 if abs(v) < threshold else v

    if mode in ("base", "milp"):
        parts = [(evs[-1], {n: a for n, a in got.items()}, None)]
    elif mode == "spores":
        parts = [(evs[s], {n: a.sel(spores=s) for n, a in got.items() if s in a.spores}, None) for s in map(int, m.results.spores.values)]
    else:
        wins = rolling.windows(m.inputs.timesteps.values, m.config.build.operate.window, m.config.build.operate.horizon)
        parts = list(zip(evs, [got] * len(evs), wins))
    for ev, arrays, win in parts:
        if ev.values is None:
            continue
        want = by_constraint(ev.duals, valid)
        for n in valid:
            have = lib.da_labels(n, arrays[n]) if n in arrays else {}
            wanted = {k: zeroed(v) for k, v in want[n].items()}
            if win is not None:
                have, wanted = window_part(ev, win, have, wanted)
            d = lib.compare_labels(have, wanted)
            if d:
                key = "stale-prices" if not wanted else "missing-prices" if not have else "wrong-prices"
                ctx.fail(key, f"shadow prices of {n} after {ev.kind} of {ev.solver} (returned {len(wanted)} duals): " + "; ".join(d), **facts)
            ctx.probe("prices-compared" if wanted else "absence-compared")


def window_part(ev, win, have, wanted):
    """Both maps restricted to the timesteps this window contributes."""
    stamps = rolling.event_stamps(ev)
    shift = dict(zip(stamps, win.horizon))
    kept = set(win.kept)
    out = {}
    for lab, v in wanted.items():
        name, rest, t = rolling.split_time(lab, shift)
        for tt in ([shift[t]] if t is not None else win.kept):
            if tt in kept:
                out[(rest, tt)] = v
    mine = {}
    for lab, v in have.items():
        name, rest, t = rolling.split_time(lab, kept)
        if t is not None:
            mine[(rest, t)] = v
    return {str(k): v for k, v in mine.items()}, {str(k): v for k, v in out.items()}
