"""C07: failed or refused operations leave the model as it was and usable."""
from __future__ import annotations

from sim import canon, core, interrupt, lib, models

ID = "C07"
LEVEL = ("deterministic simulation: seeded histories of build and solve calls with refusals, invalid options, solver failures and interruptions at any "
         "function call; state compared before and after every failure, and every later call with a twin model that never saw the failures")
RULE = ("one evaluation is one build or solve call of a history; a run is nontrivial if at least one call was refused, failed or was interrupted; "
        "distinct runs differ in the recorded history of outcomes")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima"]
STUB = ["the solver process boundary (seeded endings)", "the moment of an interruption (raised at the n-th call of a calliope function)"]

BAD = ["rc", "killed", "noexec", "interrupt", "rc_sol"]
BUILD_OPTIONS = [{}, {}, {"ensure_feasibility": True}, {"ensure_feasibility": False}]
SOLVE_OPTIONS = [{}, {}, {"zero_threshold": 0.01}, {"postprocessing_active": False}, {"shadow_prices": ["system_balance"]}, {"solver": "glpk"},
                 {"solver": "glpk", "shadow_prices": ["system_balance"]}]
INVALID_BUILD = [{"backend": "no_such_backend"}, {"ensure_feasibility": "maybe"}]
INVALID_SOLVE = [{"solver": "no_such_solver"}, {"zero_threshold": "abc"}, {"spores": {"number": "many"}}]


def groups(seed, tier):
    n_groups, n_plans = (8, 5) if tier == "quick" else (48, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        mode = ["base", "operate", "base", "spores", "base", "operate", "base", "spores"][g % 8]
        d = models.system(rng, mode=mode, steps=4, nodes=rng.choice([1, 2]), tiny=g % 8 not in (4,), milp=g % 8 == 4, window="2h", horizon=rng.choice(["2h", "3h"]))
        if mode == "spores":
            d.setdefault("data_definitions", {})["spores_slack"] = 0.5
            d["config"]["solve"]["spores"] = {"number": 2}
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            if rng.random() < 0.5:
                ops.append({"op": "solve", "refuse": "unbuilt"})
                ops.append({"op": "build", "kw": rng.choice(BUILD_OPTIONS), "force": False})
            else:
                ops.append({"op": "build", "kw": rng.choice(BUILD_OPTIONS), "force": rng.random() < 0.3})
            for _ in range(rng.randint(2, 4)):
                k = rng.random()
                if k < 0.3:
                    op = {"op": "build", "kw": rng.choice(BUILD_OPTIONS), "force": True}
                else:
                    op = {"op": "solve", "kw": rng.choice(SOLVE_OPTIONS), "force": True, "seed": rng.randrange(10**6)}
                ops.append(op)
            # every call may be preceded by attempts that do not succeed
            full = []
            for op in ops:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    full.append(trouble(rng, op, mode))
                full.append(op)
            plans.append({"ops": full})
        out.append({"config": {"model": d, "mode": mode}, "plans": plans})
    return out


def trouble(rng, op, mode):
    """The same call with a fault, or one that is to be refused."""
    k = rng.random()
    if op.get("refuse"):
        return dict(op)
    if k < 0.2:
        return {"op": op["op"], "refuse": "not forced", "kw": rng.choice(BUILD_OPTIONS if op["op"] == "build" else SOLVE_OPTIONS)}
    if k < 0.4:
        return {**op, "kw": rng.choice(INVALID_BUILD if op["op"] == "build" else INVALID_SOLVE), "invalid": True}
    if op["op"] == "build" or k < 0.75:
        return {**op, "interrupt": round(rng.random(), 5), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    return {**op, "fault": rng.choice(BAD), "at": rng.randrange(3)}


def prepare(config, ctx):
    m = models.make(config["model"])
    w = ctx.world

    def count():
        with interrupt.at() as b:
            m.build()
        w.watch(m)
        with interrupt.at() as s:
            m.solve()
        return {"build": b.calls, "solve": s.calls}

    kind, calls = ctx.fork(count)
    if kind != "ok":
        ctx.fail("fresh-run-failed", f"building and solving a fresh model: {kind} {calls}")
    return {"m": m, "calls": calls, "config": config}


def outcomes(op):
    rng = core.rng_for("outcomes", op.get("seed"))
    outs = [{"kind": rng.choice(["ok", "tag", "ok"]) if i == 0 else "tag" if op.get("seed", 0) % 2 else "ok", "seed": rng.randrange(10**6)} for i in range(8)]
    if outs[1]["kind"] == "ok":
        outs[0]["kind"] = "ok"
    if "fault" in op:
        outs[op["at"]] = {"kind": op["fault"], "seed": 1}
    return outs


def call(m, w, op, force):
    lib.queue(w, outcomes(op))
    o = lib.attempt(getattr(m, op["op"]), force=force, **op.get("kw", {}))
    w.outcomes.clear()
    if op["op"] == "build" and o.ok:
        w.watch(m)
    return o


def transcript(m, mode):
    s = lib.State(m, problem=mode == "base")
    return s


def good(op):
    return not (op.get("refuse") or op.get("invalid") or "interrupt" in op or "fault" in op)


def execute(base, plan, ctx):
    m, w, mode = base["m"], ctx.world, base["config"]["mode"]

    def twin():
        out = []
        for op in plan["ops"]:
            if good(op):
                o = call(m, w, op, op["force"])
                out.append((o.name, repr(o), transcript(m, mode)))
        return out

    kind, want = ctx.fork(twin)
    if kind != "ok":
        raise core.HarnessError(f"twin: {kind} {want}")
    want = iter(want)
    ctx.evaluations, ctx.nontrivial = 0, False
    for op in plan["ops"]:
        ctx.evaluations += 1
        facts = {"op": op["op"], "mode": mode}
        if good(op):
            name, how, state = next(want)
            n0 = len(w.events)
            o = call(m, w, op, op["force"])
            ctx.sim_seconds += lib.hours(m)
            ctx.log(op["op"], op.get("kw"), [e.kind for e in w.events[n0:]], o.name, str(m.runtime.termination_condition))
            if o.name != name:
                ctx.fail("other-outcome", f"{op['op']}({op.get('kw')}) {o}; without the failed calls before it: {how}", **facts)
            d = state.diff(transcript(m, mode), exact=True)
            if d:
                ctx.fail("other-state", f"after {op['op']}({op.get('kw')}), model without failed calls vs this one: {'; '.join(d)}", **facts)
            ctx.probe("compared-with-twin")
            continue
        ctx.nontrivial = True
        before = lib.State(m)
        refused = op.get("refuse")
        if refused == "not forced":
            refused = (m.is_built if op["op"] == "build" else bool(m.results.data_vars) or not m.is_built)
        if refused == "unbuilt":
            refused = not m.is_built
        if op.get("refuse") and not refused:
            continue  # nothing to refuse at this point
        n = int(op["interrupt"] * base["calls"][op["op"]]) if "interrupt" in op else None
        n0 = len(w.events)
        with interrupt.at(n, op.get("exc")) as use:
            o = call(m, w, op, bool(op.get("force")) and not op.get("refuse"))
        evs = w.events[n0:]
        kinds = [e.kind for e in evs]
        what = f"{op['op']}({op.get('kw')})" + (f" with endings {kinds}" if kinds else "") + (f" interrupted in {use.where}" if use.where else "")
        facts.update(where=use.where, fault=op.get("fault"))
        ctx.log("trouble", what, o.name)
        if use.where:
            ctx.fault("interrupt:" + op["exc"])
        elif op.get("invalid"):
            ctx.fault("invalid-option")
        elif op.get("refuse"):
            ctx.fault("refused-call")
        if o.ok:
            if use.where:
                ctx.fail("interruption-swallowed", f"{what} returned normally", **facts)
            if op.get("refuse"):
                ctx.fail("not-refused", f"{what} without force on a model that is built={before.is_built} with results={bool(before.results.data_vars)} was not refused", **facts)
            if op.get("invalid"):
                ctx.fail("invalid-accepted", f"{what} returned normally", **facts)
            if any(k in BAD for k in kinds):
                ctx.fail("failure-not-reported", f"{what} returned normally", **facts)
            return  # the fault did not come about: the histories part here
        after = lib.State(m)
        d = before.diff(after, exact=True, attrs=bool(op.get("refuse")), problem=mode == "base" or op["op"] == "build" or bool(op.get("refuse")))
        if d:
            ctx.fail("state-changed", f"{what} {o}: before vs after: {'; '.join(d)}", **facts)
        ctx.probe("state-compared")
        if op["op"] == "solve" and not op.get("refuse") and not op.get("invalid") and not m.is_built:
            return
