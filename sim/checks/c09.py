"""C09: fixed variables keep the last solution's values until released."""
from __future__ import annotations

import numpy as np
import xarray as xr

from sim import canon, core, lib, models, solver

ID = "C09"
LEVEL = ("deterministic simulation: seeded histories of fixing, releasing, input updates and solves with seeded solver values and failures; a reference "
         "map of fixed entries is kept beside the model and every problem handed to the solver is compared with the original one with exactly these "
         "entries replaced by their values")
RULE = ("one evaluation is one call of a history; a run is nontrivial if a solve was made while some entries were fixed; distinct runs differ in the "
        "recorded history of fixed entries and endings")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary (seeded endings and values)"]

NAMES = ["flow_cap", "storage_cap", "flow_out", "flow_in", "source_use", "storage", "link_flow_cap", "purchased_units"]
BAD = ["infeasible", "limit_nosol", "rc", "nofile", "interrupt", "rc_sol", "noexec", "unbounded", "limit_nonint"]


def groups(seed, tier):
    n_groups, n_plans = (8, 12) if tier == "quick" else (64, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        shape = ["base", "base", "spores", "base", "milp", "base", "base-full", "spores"][g % 8]
        mode = "spores" if shape == "spores" else "base"
        d = models.system(rng, mode=mode, steps=rng.choice([2, 3, 4]), nodes=2, tiny=shape not in ("milp", "base-full"), milp=shape == "milp")
        if mode == "spores":
            d.setdefault("data_definitions", {})["spores_slack"] = 0.5
            d["config"]["solve"]["spores"] = {"number": 1}
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            truth = rng.random() < 0.35
            ops = []

            def solve(bad=0.3):
                n = 2 if mode == "spores" else 1
                outs = [{"kind": "ok" if truth else rng.choice(["tag", "tag", "limit_tag"]), "seed": rng.randrange(10**6)} for _ in range(n)]
                if rng.random() < bad:
                    outs[rng.randrange(n)] = {"kind": rng.choice(BAD), "seed": 1}
                return {"op": "solve", "solver": rng.choice(["cbc", "cbc", "glpk"]), "outcomes": outs}

            if rng.random() < 0.8:
                ops.append(solve(0.1))
            for _ in range(rng.randint(4, 8)):
                k = rng.random()
                if k < 0.05:
                    ops.append({"op": "build"})
                elif k < 0.17:
                    ops.append({"op": "update", "what": rng.choice(["scale", "lookup", "new_bound", "new_bound"]), "factor": round(rng.uniform(0.5, 1.5), 3)})
                elif k < 0.48:
                    ops.append({"op": "fix", **mask(rng)})
                elif k < 0.6:
                    ops.append({"op": "unfix", **mask(rng)})
                else:
                    ops.append(solve())
            ops.append(solve(0.1))
            if rng.random() < 0.5:
                ops += [{"op": "unfix", "name": n, "dim": None} for n in NAMES] + [solve(0)]
            plans.append({"ops": ops})
        out.append({"config": {"model": d, "mode": mode}, "plans": plans})
    return out


def mask(rng):
    return {"name": rng.choice(NAMES), "dim": rng.choice([None, None, 0, 1, 2]), "seed": rng.randrange(10**6), "as": rng.choice(["bool", "float", "cut"])}


def prepare(config, ctx):
    m, twin = models.make(config["model"]), models.make(config["model"])
    m.build()
    twin.build()
    ctx.world.watch(m)
    return {"m": m, "twin": twin, "mode": config["mode"]}


def where_of(da, op):
    """(the `where` argument, {label} of the entries it selects)."""
    labels = set(lib.da_labels(da.name, xr.where(da.notnull(), 1.0, np.nan)))
    if op["dim"] is None or not da.dims:
        return None, labels
    dim = sorted(da.dims)[op["dim"] % len(da.dims)]
    coords = list(da[dim].values)
    pick = {canon.fmt_coord(c): solver.unit(op["seed"], canon.fmt_coord(c)) < 0.5 for c in coords}
    where = xr.DataArray([pick[canon.fmt_coord(c)] for c in coords], dims=dim, coords={dim: coords})
    if op["as"] == "float":
        where = where.where(where).astype(float)  # 1 / NaN
    at = sorted(da.dims).index(dim)

    def chosen(lab):
        return pick[lab.partition("[")[2][:-1].split(",")[at]]

    return where, {k for k in labels if chosen(k)}


def substituted(p, fixed):
    """The problem with the given entries fixed at their values."""
    q = canon.relabel(p, lambda k: k)
    q.fixed = dict(fixed)
    rows = []
    for lb, ub, t in q.rows:
        const = sum(c * fixed[k] for k, c in t.items() if k in fixed)
        t = {k: c for k, c in t.items() if k not in fixed}
        lb, ub = (lb - const if lb > -canon.INF else lb), (ub - const if ub < canon.INF else ub)
        if not t and lb <= 1e-9 and ub >= -1e-9:
            continue
        f = t[min(t)] if t else 1.0
        t = {k: c / f for k, c in t.items()}
        rows.append((lb / f, ub / f, t) if f > 0 else (ub / f, lb / f, t))
    q.rows = rows
    sense, const, terms = q.objective
    q.objective = (sense, const + sum(c * fixed[k] for k, c in terms.items() if k in fixed), {k: c for k, c in terms.items() if k not in fixed})
    return q


def execute(base, plan, ctx):
    w, m, twin, mode = ctx.world, base["m"], base["twin"], base["mode"]
    fixed, last = {}, None
    ctx.evaluations, ctx.nontrivial = 0, False
    for op in plan["ops"]:
        ctx.evaluations += 1
        kind = op["op"]
        facts = {"mode": mode, "op": kind}
        if kind == "build":
            m.build(force=True)
            twin.build(force=True)
            fixed, last = {}, None
            ctx.log("build")
        elif kind == "update":
            outs = [lib.attempt(update, x, op) for x in (m, twin)]
            ctx.log("update", op["what"], outs[0].name, outs[1].name)
            if outs[0].name != outs[1].name:
                ctx.fail("update-differs", f"update {op} with fixed variables {outs[0]}, without {outs[1]}", **facts)
        elif kind in ("fix", "unfix"):
            if op["name"] not in m.backend.variables:
                continue
            da = m.backend.variables[op["name"]]
            where, chosen = where_of(da, op)
            before = lib.problem_of(m).fixed
            if where is not None and op["as"] == "cut":
                where = where.where(where, drop=True).astype(bool) if bool(where.any()) else where
            o = lib.attempt(getattr(m.backend, kind + "_variable"), op["name"], where=where)
            ctx.log(kind, op["name"], len(chosen), o.name)
            if kind == "unfix":
                if not o.ok:
                    ctx.fail("release-refused", f"unfix_variable({op['name']}) {o}", **facts)
                for k in chosen:
                    fixed.pop(k, None)
            elif not o.ok:
                if last is not None and chosen and all(k in last for k in chosen):
                    ctx.fail("fix-refused", f"fix_variable({op['name']}) after a successful solve {o}", **facts)
                ctx.probe("fix-refused")
                after = lib.problem_of(m).fixed
                if after != before:
                    ctx.fail("refused-fix-fixes", f"fix_variable({op['name']}) {o}, yet it fixed {sorted(set(after) - set(before))[:4]}", **facts)
            elif last is None and chosen:
                ctx.fail("fix-without-solution", f"fix_variable({op['name']}) before any solution returned; fixed now: {list(lib.problem_of(m).fixed.items())[:4]}", **facts)
            else:
                for k in chosen:
                    if k not in fixed:
                        fixed[k] = last.get(k)
                ctx.probe("fixed")
        else:
            n0 = len(w.events)
            before = m.results.copy(deep=True)
            lib.queue(w, op["outcomes"])
            o = lib.attempt(m.solve, force=True, solver=op["solver"])
            w.outcomes.clear()
            evs = w.events[n0:]
            ctx.sim_seconds += lib.hours(m)
            ctx.log("solve", [e.kind for e in evs], o.name, len(fixed), str(m.runtime.termination_condition))
            if fixed:
                ctx.nontrivial = True
            want_problem = lib.problem_of(twin) if mode == "base" else None
            for ev in evs:
                known = {k: v for k, v in fixed.items() if v is not None}
                got = {k: v for k, v in ev.problem.fixed.items() if fixed.get(k, 0) is not None}
                d = lib.compare_labels(got, known, rel=1e-9)
                if d:
                    ctx.fail("other-fixed-values", f"in force vs expected: {'; '.join(d)}", **facts)
                if want_problem is not None and len(known) == len(fixed):
                    d = canon.equivalent(substituted(want_problem, known), ev.problem, w.solve3)
                    if d:
                        ctx.fail("other-problem", f"original problem with {len(fixed)} entries fixed vs problem posed: {d}", **facts)
                    ctx.probe("problems-compared" + ("-fixed" if fixed else ""))
                if ev.values is not None:
                    used = ev.problem.used()
                    # entries that appear nowhere in the problem have no value of their own
                    fresh = {k: v for k, v in ev.values.items() if k in used}
                    last = {**fresh, **{k: v for k, v in ev.problem.fixed.items() if v is not None}}
            if o.ok and m.results.data_vars and mode == "base":
                d = lib.check_values(m.results, evs[-1], list(map(str, m.backend.variables.data_vars)))
                if d:
                    ctx.fail("wrong-values", f"with {len(fixed)} entries fixed: {'; '.join(d)}", **facts)
            elif not o.ok:
                d = lib.compare_datasets(before, m.results, exact=True)
                if d:
                    ctx.fail("results-changed-by-failure", f"solve {o}: {d}", **facts)


def update(m, op):
    b = m.backend
    if op["what"] == "scale":
        b.update_input("cost_flow_out", b.inputs["cost_flow_out"] * op["factor"])
    elif op["what"] == "lookup":
        b.update_input("cyclic_storage", ~b.inputs["cyclic_storage"].fillna(False).astype(bool))
    else:
        # a bound of flow_cap or storage_cap that was not defined before: their variables are rebuilt
        name = "flow_cap_min" if op["factor"] < 1 else "storage_cap_min"
        b.update_input(name, 0.25 * op["factor"])
