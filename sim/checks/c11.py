"""C11: a failed, killed or disk-starved save never passes for a complete model."""
from __future__ import annotations

import pathlib

from sim import core, lib, models, saving

ID = "C11"
LEVEL = ("deterministic simulation: seeded histories of saves, loads, solves and input changes on two models sharing target files, with a kill, full disk, I/O error or short "
         "write at a seeded file-system call of a save and a read error at a seeded call of a load; what loads afterwards is compared with the models really saved there")
RULE = ("one evaluation is one save or load; nontrivial if a disk fault or kill struck; distinct runs differ in where the faults struck and what was found afterwards")
REAL = ["calliope (all of it)", "xarray, netCDF4 and HDF5 down to the C library", "the file system behind the fault points"]
STUB = ["file-system calls of the process (real ones, failed, cut short or ended by the simulator)", "the solver process boundary (seeded answers)"]


def fault(rng):
    action = rng.choice(["kill", "kill", "fail", "fail", "fail", "short", "full", "full", "torn", "quota"])
    f = {"action": action, "frac": round(rng.random() ** rng.choice([1, 1, 3]) if rng.random() < 0.8 else 1 - rng.random() * 0.1, 4)}
    if action in ("fail", "full"):
        f["errno"] = rng.choice(["EIO", "ENOSPC", "EDQUOT", "EIO"]) if action == "fail" else "ENOSPC"
    if action in ("short", "torn"):
        f["arg"] = rng.choice([0, 1, 7, 64, 512])
    return f


def read_fault(rng):
    return {"action": rng.choice(["fail", "fail", "readfail", "short"]), "cls": "read", "errno": rng.choice(["EIO", "EIO", "EACCES", "EMFILE"]),
            "frac": round(rng.random(), 4), "arg": rng.choice([0, 3, 100])}


def groups(seed, tier):
    n_groups, n_plans = (8, 14) if tier == "quick" else (64, 120)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        shapes = ["base", "base", "spores", "operate", "base", "base", "base", "spores"]
        mode = shapes[g % 8]
        d = models.system(rng, mode=mode, steps=4, nodes=rng.choice([1, 2]), tiny=g % 8 != 4, window="2h", horizon="2h", gaps=rng.random() < 0.5)
        if mode == "spores":
            d.setdefault("data_definitions", {})["spores_slack"] = 0.5
            d["config"]["solve"]["spores"] = {"number": 2}
        e = models.system(rng, mode="base", steps=rng.choice([2, 6]), nodes=1)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(2, 5)):
                k = rng.random()
                if k < 0.65:
                    ops.append({"op": "save", "model": rng.choice(["a", "a", "b"]), "path": rng.choice(["x.nc", "x.nc", "sub/y.nc"]),
                                "fault": fault(rng) if rng.random() < 0.7 else None, "twice": rng.random() < 0.2})
                    if rng.random() < 0.6:
                        ops.append({"op": "load", "path": ops[-1]["path"], "fault": read_fault(rng)})
                elif k < 0.8:
                    ops.append({"op": "load", "path": rng.choice(["x.nc", "sub/y.nc"]), "fault": read_fault(rng)})
                else:
                    ops.append({"op": "solve", "model": rng.choice(["a", "b"]), "outcomes": [{"kind": rng.choice(["tag", "tag", "tag", "infeasible"]), "seed": rng.randrange(10**6)} for _ in range(3)]})
            plans.append({"ops": ops, "link": rng.random() < 0.1})
        out.append({"config": {"model": d, "other": e, "solved": g % 8 != 5}, "plans": plans})
    return out


def prepare(config, ctx):
    a, b = models.make(config["model"]), models.make(config["other"])
    for m in (a, b):
        m.build()
        ctx.world.watch(m)
    if config["solved"]:
        a.solve()
        b.solve()
    use = {}
    for n, m in (("a", a), ("b", b)):
        p = pathlib.Path(ctx.scratch) / f"count_{n}.nc"
        with ctx.world.disk.armed(ctx.scratch) as u:
            m.to_netcdf(p)
        with ctx.world.disk.armed(ctx.scratch) as v:
            saving.load(p)
        use[n] = (u.mutations, v.reads)
    return {"a": a, "b": b, "use": use}


def execute(base, plan, ctx):
    disk = ctx.world.disk
    root = pathlib.Path(ctx.scratch) / "disk"
    (root / "sub").mkdir(parents=True)
    if plan.get("link"):
        (root / "real.nc").write_bytes(b"")
        (root / "x.nc").symlink_to(root / "real.nc")
        (root / "real.nc").unlink()
    saved = {"x.nc": [], "sub/y.nc": []}  # what was really saved at each path, latest last
    latest = {}  # after a save that returned: what must be there
    ctx.evaluations = 0
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "solve":
            m = base[op["model"]]
            lib.queue(ctx.world, op["outcomes"])
            o = lib.attempt(m.solve, force=True)
            ctx.world.outcomes.clear()
            ctx.log("solve", op["model"], o.name)
            continue
        path = root / op["path"]
        f = dict(op["fault"] or {})
        facts = {"op": op["op"], "fault": f.get("action"), "existing": bool(saved[op["path"]])}
        ctx.evaluations += 1
        if op["op"] == "save":
            m = base[op["model"]]
            before = lib.State(m, problem=False)
            n_mut = base["use"][op["model"]][0]
            faults, quota = armed(f, n_mut)
            allowed = saved[op["path"]] + [before]

            def save():
                for _ in range(2 if op.get("twice") else 1):
                    m.to_netcdf(path)

            def attempted():
                with disk.armed(root, faults, quota) as use:
                    o = lib.attempt(save)
                d = before.diff(lib.State(m, problem=False))
                again = ""
                if not o.ok:
                    # saving again must work, in the same process
                    r = lib.attempt(m.to_netcdf, root / "sub" / "again.nc")
                    if r.ok:
                        kept = path.read_bytes() if path.exists() else None
                        r = lib.attempt(m.to_netcdf, path)
                        if r.ok and judge(path, [before])[0] != "is":
                            again = f"what loads then is not the model: {judge(path, [before])}"
                        path.write_bytes(kept) if kept is not None else path.resolve().unlink(missing_ok=True)
                    again = again or ("" if r.ok else repr(r))
                return bool(use.fired), o.ok, repr(o), d, again

            if f:
                kind, v = ctx.fork(attempted)
                if kind == "raised":
                    raise core.HarnessError(f"save: {v}")
                if kind == "died":
                    if f["action"] not in ("kill", "torn"):
                        # HDF5 itself may crash after an input/output error
                        ctx.probe("library-crash")
                    v = True, False, "killed", [], ""
            else:
                kind, v = "ok", attempted()
            fired, ok, text, d, again = v
            ended = "killed" if kind == "died" else ("returned" if ok else "raised")
            if d:
                ctx.fail("model-changed", f"a save that {ended} changed the model: {'; '.join(d)}", **facts)
            if again:
                ctx.fail("cannot-save-again", f"after a save that was {ended}: {again}", **facts)
            if fired:
                ctx.fault("disk:" + f["action"])
                ctx.nontrivial = True
            ctx.log("save", op["model"], op["path"], f.get("action"), fired, ended)
            if ended == "raised" and not fired:
                ctx.fail("save-failed", f"without a fault: {text}", **facts)
            if ended == "returned":
                allowed = [before]
            at = latest.get(op["path"]) if ended != "returned" else before
            found = look(ctx, path, allowed, facts)
            ctx.log("found", found)
            if ended == "returned" and found is None:
                ctx.fail("save-lost", "the save returned, and nothing can be loaded", **facts)
            if at is not None and found is None:
                ctx.probe("file-lost-to-a-failed-save")  # permitted: it raises
            saved[op["path"]] = [before] if ended == "returned" else ([allowed[found]] if found is not None else [])
            if ended == "returned":
                latest[op["path"]] = before
            else:
                latest.pop(op["path"], None)
        else:
            if not saved[op["path"]]:
                if not path.exists():
                    o = lib.attempt(saving.load, path)
                    if o.ok:
                        ctx.fail("loaded-nothing", "a file that does not exist was loaded", **facts)
                continue
            n_reads = max(v[1] for v in base["use"].values())
            faults, _ = armed(f, n_reads)
            with disk.armed(root, faults) as use:
                o = lib.attempt(saving.load, path)
            if use.fired:
                ctx.fault("disk:read " + f["action"])
                ctx.nontrivial = True
            ctx.log("load", op["path"], f.get("action"), bool(use.fired), o.name)
            if o.ok:
                d = saving.diff(saved[op["path"]][-1], o.value)
                if d:
                    ctx.fail("partial-load", f"a load with a read error gave a different model: {'; '.join(d)}", **facts)
            elif not use.fired:
                ctx.fail("load-failed", f"without a fault: {o!r}", **facts)


def armed(f, n):
    """(faults, quota) of a planned fault given the number of calls it may strike."""
    if not f:
        return [], None
    if f["action"] == "quota":
        return [], int(f["frac"] * 120_000)
    g = {k: v for k, v in f.items() if k != "frac"}
    return [{**g, "at": int(f["frac"] * n)}], None


def look(ctx, path, allowed, facts):
    """Index of the allowed state the file loads as; None if it does not load."""
    kind, v = ctx.fork(lambda: judge(path, allowed))
    if kind != "ok":
        raise core.HarnessError(f"look: {kind} {v}")
    what, v = v
    if what == "raises":
        return None
    if what == "differs":
        ctx.fail("partial-model", f"what loads is none of the models saved there: {v}", **facts)
    return v


def judge(path, allowed):
    o = lib.attempt(saving.load, path)
    if not o.ok:
        return "raises", o.name
    why = []
    for i in range(len(allowed) - 1, -1, -1):
        d = saving.diff(allowed[i], o.value)
        if not d:
            return "is", i
        why.append("; ".join(d))
    return "differs", " | ".join(why)[:900]
