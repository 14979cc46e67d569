"""C05: completed SPORES survive any failure when saved per run."""
from __future__ import annotations

import pathlib
import pickle

import netCDF4
import numpy as np

from sim import core, lib, models, saving

ID = "C05"
LEVEL = ("deterministic simulation: seeded SPORES sessions saving per run into one directory, struck by solver endings, interrupts, disk errors and kills at seeded file-system "
         "calls; at the end (and when a run is finished) every per-run file is loaded and compared with what the solver answered in that run")
RULE = ("one evaluation is one session; nontrivial if a fault, kill or failed solver ending struck; distinct runs differ in where that was and which files were found")
REAL = ["calliope (all of it)", "xarray, netCDF4 and HDF5 down to the C library", "the file system behind the fault points", "pyomo"]
STUB = ["the solver process boundary (seeded answers and endings)", "file-system calls of the process (real ones, failed, cut short or ended by the simulator)"]
CALLS = 700  # upper bound of file-system calls per saved run that faults may strike


def groups(seed, tier):
    n_groups, n_plans = (8, 14) if tier == "quick" else (64, 120)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d = models.system(rng, mode="spores", steps=rng.choice([2, 3]), nodes=rng.choice([1, 2]), tiny=g % 8 != 5, feas=g % 4 == 1, cyclic=False)
        d.setdefault("data_definitions", {})["spores_slack"] = round(rng.uniform(0.1, 1), 3)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for s in range(rng.choice([1, 1, 2, 3])):
                number = rng.choice([1, 2, 3, 4])
                outs = [{"kind": rng.choice(["tag", "tag", "ok"]), "seed": rng.randrange(10**6)} for _ in range(number + 1)]
                if rng.random() < 0.4:
                    outs[rng.randrange(number + 1)] = {"kind": rng.choice(["infeasible", "unbounded", "limit_nosol", "limit_tag", "rc", "interrupt", "nofile", "difficulties"]), "seed": rng.randrange(10**6)}
                fault = None
                if rng.random() < 0.7:
                    a = rng.choice(["kill", "kill", "kill", "torn", "fail", "fail", "short", "full"])
                    fault = {"action": a, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"]) if a != "full" else "ENOSPC", "arg": rng.choice([0, 1, 64, 512]),
                             "run": rng.randrange(number + 1), "frac": round(rng.random(), 4) if rng.random() < 0.7 else round(1 - rng.random() * 0.05, 4)}
                ops.append({"op": "session", "number": number, "latest": bool(ops) and rng.random() < 0.3, "solver": rng.choice(["cbc", "cbc", "glpk"]), "outcomes": outs, "fault": fault,
                            "rule": rng.choice(["integer", "random", "evolving_average"])})
            plans.append({"ops": ops, "existing": rng.random() < 0.8})
        out.append({"config": {"model": d}, "plans": plans})
    return out


def shrink(plan):
    yield from core.default_shrink(plan)
    for i, op in enumerate(plan["ops"]):
        for j, o in enumerate(op["outcomes"]):
            if o["kind"] != "ok":
                q = models.clone(plan)
                q["ops"][i]["outcomes"][j] = {"kind": "ok"}
                yield q


def prepare(config, ctx):
    m = models.make(config["model"])
    m.build()
    ctx.world.watch(m)
    # how many file-system calls saving a run takes
    counts = []

    def count():
        d = pathlib.Path(ctx.scratch) / "count"
        marks = []
        with ctx.world.disk.armed(d):
            ctx.world.hooks[:] = [lambda ev: marks.append(ctx.world.disk.lib.simdisk_mutations())]
            m.solve(spores={"number": 2, "save_per_spore_path": str(d)})
            ctx.world.hooks.clear()
            marks.append(ctx.world.disk.lib.simdisk_mutations())
        return [b - a for a, b in zip(marks, marks[1:])]

    kind, v = ctx.fork(count)
    counts = v if kind == "ok" else [150, 120]
    return {"m": m, "counts": counts}


def execute(base, plan, ctx):
    w, m = ctx.world, base["m"]
    runs = pathlib.Path(ctx.scratch) / "disk" / "runs"
    runs.parent.mkdir()
    if plan["existing"]:
        runs.mkdir()
    names = list(map(str, m.backend.variables.data_vars))
    inputs = m.inputs.copy(deep=True)
    held = {}  # run -> events any of which its file may stand for
    required = {}  # run -> event its file must stand for
    ctx.evaluations = 0
    for i, op in enumerate(plan["ops"]):
        ctx.evaluations += 1
        f = op["fault"]
        facts = {"fault": f and f["action"], "latest": op["latest"]}
        first = 0
        if op["latest"]:
            if "spores" in m.results.dims:
                first = int(m.results.spores.max()) + 1
            if first == 0 or first > op["number"]:
                continue
        progress = pathlib.Path(ctx.scratch) / f"progress{i}"

        def session():
            lib.queue(w, op["outcomes"][first:])
            n0 = len(w.events)
            done = []

            def record():
                # what a user who is told that the next run starts, or that the solve ended, may rely on
                dump(progress, [(e.idx - n0 + first, slim(e)) for e in w.events[n0:]])

            def arm(ev):
                done.append(ev)
                if f and len(done) - 1 + first == f["run"]:
                    n = base["counts"][0 if f["run"] == 0 else 1]
                    w.disk.lib.simdisk_fault(w.disk.lib.simdisk_mutations() + int(f["frac"] * n), 0, ACTIONS[f["action"]], ERRNO[f["errno"]], int(f["arg"]))

            w.hooks[:] = [arm]
            w.after_hooks[:] = [lambda ev: record()]
            np.random.seed(i)
            with w.disk.armed(runs) as use:
                o = lib.attempt(m.solve, force=True, solver=op["solver"],
                                spores={"number": op["number"], "use_latest_results": op["latest"], "scoring_algorithm": op["rule"], "save_per_spore_path": str(runs)})
            w.hooks.clear()
            w.after_hooks.clear()
            w.outcomes.clear()
            return o.ok, repr(o), bool(use.fired)

        if f:
            kind, v = ctx.fork(session)
            if kind == "raised":
                raise core.HarnessError(str(v))
            ok, text, fired = v if kind == "ok" else (False, "killed", True)
        else:
            (ok, text, fired), kind = session(), "ok"
        evs = dict(load(progress)) if progress.exists() else {}
        if fired:
            ctx.fault("disk:" + f["action"])
            ctx.nontrivial = True
        if any(e["values"] is None for e in evs.values()):
            ctx.nontrivial = True
        ctx.log("session", op["number"], first, [e["kind"] for e in evs.values()], f and f["action"], fired, text.split(":")[0])
        if not evs:
            continue
        last = max(evs)
        for n, e in evs.items():
            if not finished(e):
                continue
            # a run is finished once the next one was posed, or the solve ended well
            if n < last or ok:
                required[n], held[n] = e, [e]
            else:
                held.setdefault(n, []).append(e)
                if not fired and e["kind"] in ("tag", "ok", "okfile"):
                    required[n] = e
                    held[n] = [e]
                else:
                    required.pop(n, None)
        if not ok and not fired and all(e["kind"] in ("tag", "ok") for e in evs.values()):
            ctx.fail("session-failed", text, **facts)
        d = ctx.fork(lambda: look(runs, required, held, names, inputs))
        if d[0] != "ok":
            raise core.HarnessError(str(d))
        problems, seen = d[1]
        ctx.log("files", seen)
        ctx.probe("files-loaded", len(seen))
        if problems:
            key, message = problems[0]
            ctx.fail(key, message, **facts)


ACTIONS = {"fail": 1, "short": 2, "kill": 3, "torn": 4, "full": 5}


class _Errno(dict):
    def __missing__(self, k):
        import errno

        return getattr(errno, k)


ERRNO = _Errno()


def finished(e):
    """Did the run give a solution that counts?"""
    return e["values"] is not None and e["kind"] in ("tag", "ok", "okfile", "limit_tag")


def slim(ev):
    """What comparing needs of an event."""
    return {"kind": ev.kind, "values": ev.values, "fixed": dict(ev.problem.fixed), "used": sorted(ev.problem.used())}


class Answer:
    def __init__(self, e):
        self.values = e["values"]
        self.problem = self
        self.fixed = e["fixed"]
        self._used = set(e["used"])

    def used(self):
        return self._used


def look(runs, required, held, names, inputs):
    """(problems, numbers of the run files that load)."""
    out, seen = [], []
    files = {f.name: f for f in sorted(runs.glob("*"))} if runs.exists() else {}
    for name, f in files.items():
        if name.startswith(".") or not name.endswith(".nc"):
            continue
        n = int(name[len("spore_"):-len(".nc")])
        o = lib.attempt(saving.load, f)
        if not o.ok:
            if n in required:
                out.append(("run-lost", f"{name} does not load: {o}"))
            continue
        seen.append(n)
        if n not in held:
            out.append(("file-without-a-run", f"{name} loads, no solution was returned for run {n}"))
            continue
        m = o.value
        if "spores" not in m.results.dims or [int(v) for v in m.results.spores.values] != [n]:
            out.append(("wrong-run-in-file", f"{name} holds runs {m.results.spores.values.tolist() if 'spores' in m.results.coords else None}"))
            continue
        r = m.results.sel(spores=n)
        allowed = [required[n]] if n in required else held[n]
        whys = [lib.check_values(r, Answer(e), names, threshold=0) for e in allowed]
        if all(whys):
            out.append(("wrong-values-in-file", f"{name}: {'; '.join(whys[-1])}"))
        with netCDF4.Dataset(f) as h:
            groups = set(h.groups)
        if "attrs" not in groups or not m.config.init.name:
            out.append(("file-incomplete", f"{name} holds {sorted(groups)}"))
        if n == 0:
            got = m.inputs
            missing = [v for v in inputs.data_vars if v not in got.data_vars]
            if missing:
                out.append(("baseline-without-inputs", f"{name} lacks {missing[:4]} ..."))
            else:
                got = got.sel(spores=0, drop=True) if "spores" in got.dims else got
                d = lib.compare_datasets(inputs, got, attrs=False)
                if d:
                    out.append(("wrong-inputs-in-file", f"{name}: {'; '.join(d)}"))
    for n in required:
        if n not in seen and not any(k == "run-lost" and f"spore_{n}.nc" in t for k, t in out):
            out.append(("run-lost", f"run {n} was finished, there is no spore_{n}.nc"))
    return out, seen


def dump(path, value):
    tmp = path.with_suffix(".tmp")
    tmp.write_bytes(pickle.dumps(value))
    tmp.rename(path)


def load(path):
    return pickle.loads(path.read_bytes())
