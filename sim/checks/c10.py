"""C10: a model saved to NetCDF and loaded again is the same model."""
from __future__ import annotations

import pathlib

from sim import canon, core, lib, models, saving

ID = "C10"
LEVEL = ("deterministic simulation: seeded histories of builds, solves with seeded solver endings, input changes and restarts (save, drop the process's objects, load, carry on), "
         "with definitions that hold every type of content; after each restart all that is observable is compared with the state before it, and the problem and results "
         "the loaded model gives with those the original gives")
RULE = ("one evaluation is one restart; nontrivial if the model had been changed by a build, solve or update since it was made; distinct runs differ in the history before the restarts")
REAL = ["calliope (all of it)", "xarray, netCDF4 and HDF5", "the file system", "pyomo"]
STUB = ["the solver process boundary (seeded answers and endings)"]
ENDINGS = ["tag", "tag", "tag", "ok", "infeasible", "limit_sol", "limit_nosol", "unbounded", "rc", "interrupt"]
NOTES = [["one"], ["a", "b"], [], ["1"], {"set": ["x"]}, {"set": ["x", "y"]}, None, True, False, {"dict": {"a": 1, "b": {"c": None, "d": [1, 2]}}}, {"dict": {}}, "", 1, 2.5, "tëxt", "None",
         [1, 2], [True], "null"]
UPDATES = ["cost_flow_out", "flow_out_eff", "storage_initial", "sink_use_equals", "source_use_max", "storage_loss"]


def definition(rng, g):
    """(definition, reading options)"""
    kind = ["typed", "typed operate", "typed spores", "full", "clustered", "typed", "resampled", "typed"][g % 8]
    mode = kind.split()[-1] if " " in kind else "base"
    steps = 12 if kind == "clustered" else rng.choice([3, 4, 6])
    d = models.system(rng, mode=mode, steps=steps, minutes=360 if kind == "clustered" else 60, nodes=rng.choice([1, 2, 3]), tiny=kind not in ("full", "clustered"), window="2h",
                      horizon=rng.choice(["2h", "3h"]), gaps=rng.random() < 0.4, cyclic=False if kind in ("clustered", "typed operate", "resampled") else None,
                      milp=kind == "full" and rng.random() < 0.5, classes=["monetary", "co2"] if rng.random() < 0.3 else None)
    if mode == "spores":
        d.setdefault("data_definitions", {})["spores_slack"] = 0.5
        d["config"]["solve"]["spores"] = {"number": 1}
    if kind != "full":
        models.decorate(d, rng)
    init = d["config"]["init"]
    idx = next(v["index"] for v in d["techs"]["dem"].values() if isinstance(v, dict))
    if kind == "clustered":
        models.clustered(d, rng)
    if kind == "resampled":
        if rng.random() < 0.7:
            init["resample"] = {"timesteps": "2h"}
        if rng.random() < 0.5 or "resample" not in init:
            init["subset"] = {"timesteps": [idx[0], idx[-2]]}
        if rng.random() < 0.3:
            init["subset"] = init.get("subset", {}) | {"nodes": [list(d["nodes"])[0]]}
    if kind == "typed" and rng.random() < 0.3:
        init["datetime_format"] = "%Y-%m-%d %H:%M:%S"
    kw = {}
    if "scenarios" in d:
        kw["scenario"] = rng.choice([None, "one", "all of it", "second,ü"])
    if rng.random() < 0.3:
        kw["override_dict"] = {"config.init.name": rng.choice(models.NAMES)}
    if rng.random() < 0.2:
        kw["math_dict"] = {"mine": {"parameters": {"own": {"default": 1.5}}}}
        init.setdefault("extra_math", []).append("mine")
    return d, kw


def groups(seed, tier):
    n_groups, n_plans = (16, 3) if tier == "quick" else (96, 40)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = definition(rng, g)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.random()
                if k < 0.12:
                    ops.append({"op": "build"})
                elif k < 0.45:
                    ops.append({"op": "solve", "outcomes": [{"kind": rng.choice(ENDINGS if rng.random() < 0.5 else ["tag"]), "seed": rng.randrange(10**6)} for _ in range(4)],
                                "solver": rng.choice(["cbc", "cbc", "glpk"]), "options": rng.choice([{}, {}, {"shadow_prices": ["system_balance"]}, {"shadow_prices": []}, {"zero_threshold": 0.5}])})
                elif k < 0.52:
                    ops.append({"op": "note", "value": rng.choice(NOTES), "where": rng.choice(["inputs", "results", "result"])})
                elif k < 0.63:
                    ops.append({"op": "update", "param": rng.choice(UPDATES), "factor": round(rng.uniform(0.7, 1.0), 3), "what": rng.choice(["input", "input", "fix", "bounds"])})
                else:
                    ops.append({"op": "restart", "keep": rng.choice(["loaded", "loaded", "original"]), "rebuild": rng.random() < 0.3, "times": rng.choice([1, 1, 2]),
                                "outcomes": [{"kind": "tag", "seed": rng.randrange(10**6)} for _ in range(4)], "path": rng.choice(["a.nc", "a.nc", "ü b.nc"])})
            if not any(o["op"] == "restart" for o in ops[-2:]):
                ops.append({"op": "restart", "keep": "loaded", "rebuild": rng.random() < 0.5, "times": 1, "path": "a.nc", "outcomes": [{"kind": "tag", "seed": rng.randrange(10**6)} for _ in range(4)]})
            plans.append({"ops": ops})
        out.append({"config": {"model": d, "read": kw}, "plans": plans})
    return out


def prepare(config, ctx):
    m = models.make(config["model"], **config["read"])
    ctx.world.watch(m)
    return {"m": m}


def execute(base, plan, ctx):
    w, m = ctx.world, base["m"]
    ctx.evaluations = 0
    changed = False
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "build":
            o = lib.attempt(m.build, force=True)
            changed |= o.ok
            ctx.log("build", o.name)
        elif op["op"] == "solve":
            if not m.is_built:
                m.build()
            o = solve(w, m, op)
            changed = True
            ctx.log("solve", [x["kind"] for x in op["outcomes"]], o.name)
        elif op["op"] == "update":
            if not m.is_built:
                continue
            o = update(m, op)
            if o is None:
                continue
            changed |= o.ok
            ctx.log("update", op["what"], op["param"], o.name)
        elif op["op"] == "note":
            if note(m, op):
                changed = True
                ctx.log("note", op["where"], str(op["value"]))
        else:
            ctx.evaluations += 1
            ctx.nontrivial |= changed
            m = restart(ctx, base, m, op, {"mode": str(m.config.init.mode)})
            ctx.log("restart", m.is_built, m.is_solved)


def solve(w, m, op):
    w.watch(m)
    lib.queue(w, op["outcomes"])
    n0 = len(w.events)
    o = lib.attempt(m.solve, force=True, solver=op.get("solver", "cbc"), **op.get("options", {}))
    w.outcomes.clear()
    o.evs = w.events[n0:]
    return o


def note(m, op):
    """Attach an attribute of one's own to the data."""
    v = op["value"]
    if isinstance(v, dict):
        v = set(v["set"]) if "set" in v else dict(v["dict"])
    where = {"inputs": lambda: m.inputs, "results": lambda: m.results, "result": lambda: m.results["flow_out"]}[op["where"]]
    if op["where"] in ("result", "results") and "flow_out" not in m.results:
        return False
    where().attrs["note"] = v
    return True


def unserialisable(m):
    """Notes that are refused when saving; they are taken away again."""
    at = [m.inputs, m.results] + ([m.results["flow_out"]] if "flow_out" in m.results else [])
    bad = [x for x in at if isinstance(x.attrs.get("note"), list) and any(not isinstance(i, str) for i in x.attrs["note"])]

    def drop():
        for x in bad:
            del x.attrs["note"]

    return drop if bad else None


def update(m, op):
    """A valid change of the built problem, or None."""
    b = m.backend
    if op["what"] == "input":
        if op["param"] not in b.inputs or op["param"] not in b.parameters:
            return None
        return lib.attempt(b.update_input, op["param"], b.inputs[op["param"]].fillna(0) * op["factor"])
    if op["what"] == "bounds":
        return lib.attempt(b.update_variable_bounds, "flow_out", max=500.5)
    return lib.attempt(b.fix_variable, "flow_out") if m.is_solved and m.results.data_vars else None


def restart(ctx, base, m, op, facts):
    w = ctx.world
    path = pathlib.Path(ctx.scratch) / op["path"]
    state = lib.State(m, problem=False)
    drop = unserialisable(m)
    if drop:
        o = lib.attempt(m.to_netcdf, path)
        d = state.diff(lib.State(m, problem=False), exact=True)
        if not o.ok and d:
            ctx.fail("refusal-changes", f"a refused save changed the model in memory: {'; '.join(d[:3])}", **facts)
        if o.ok:
            d = saving.diff(state, saving.load(path))
            if d:
                ctx.fail("content", f"a {stage(m)} model loaded from file differs: {'; '.join(d[:3])}", **facts)
        drop()
        state = lib.State(m, problem=False)
    loaded = m
    for n in range(op["times"]):
        o = lib.attempt(loaded.to_netcdf, path)
        if not o.ok:
            ctx.fail("save-raises", f"saving a {stage(m)} model {o}", **facts)
        o = lib.attempt(saving.load, path)
        if not o.ok:
            ctx.fail("load-raises", f"loading a saved {stage(m)} model {o}", **facts)
        loaded = o.value
        facts = dict(facts, stage=stage(m), times=n + 1)
        d = state.diff(lib.State(m, problem=False), exact=True)
        if d:
            ctx.fail("saving-changes", f"saving changed the model in memory: {'; '.join(d[:3])}", **facts)
        d = saving.diff(state, loaded)
        if d:
            ctx.fail("content", f"a {stage(m)} model loaded from file differs: {'; '.join(d[:3])}", **facts)
        if loaded.is_solved != state.is_solved:
            ctx.fail("status", f"a {stage(m)} model is {'solved' if loaded.is_solved else 'not solved'} once loaded", **facts)
        if loaded.is_built:
            ctx.fail("status", "a loaded model says that it is built", **facts)
    if op["rebuild"]:
        rebuilt(ctx, m, loaded, op, facts)
    if op["keep"] == "loaded":
        w.watch(loaded)
        return loaded
    return m


def stage(m):
    if m.is_solved:
        return "solved" if m.results.data_vars else "solved without solution"
    return "built" if m.is_built else "initialised"


def again(ctx, m, op):
    """Problem and results of the model when built and solved now."""

    def do():
        o = lib.attempt(m.build, force=True)
        if not o.ok:
            return repr(o), None, None
        ctx.world.watch(m)
        p = lib.problem_of(m)
        solver = m.config.solve.solver
        o = solve(ctx.world, m, dict(op, solver=solver))
        return repr(o) if not o.ok else "", p, lib.State(m, problem=False)

    kind, v = ctx.fork(do)
    if kind != "ok":
        raise core.HarnessError(f"{kind} {v}")
    return v


def rebuilt(ctx, m, loaded, op, facts):
    want = again(ctx, m, op)
    got = again(ctx, loaded, op)
    if want[0] != got[0]:
        ctx.fail("outcome", f"building and solving the loaded model: {got[0] or 'works'}; the original: {want[0] or 'works'}", **facts)
    if want[1] is not None:
        if canon.diff(want[1], got[1]):
            d = canon.equivalent(want[1], got[1], ctx.world.solve3)
            if d:
                ctx.fail("problem", f"the loaded model builds another problem: {'; '.join(map(str, d[:3]))}", **facts)
        d = want[2].diff(got[2], exact=False)
        if d:
            ctx.fail("results", f"the loaded model solves to something else: {'; '.join(d[:3])}", **facts)
