"""C15: the command line exits 0 only when everything asked for was done."""
from __future__ import annotations

import io
import os
import pathlib
import shutil

from sim import core, interrupt, lib, models
from sim.checks import c10, c13

ID = "C15"
LEVEL = ("deterministic simulation: seeded `calliope run` command lines on seeded models, with seeded solver endings and a seeded disk error, full disk, failing standard output, interruption "
         "or failed allocation; the exit status and every output are judged against the same run through the Python interface")
RULE = ("one evaluation is one command; nontrivial when it exited 0 with outputs to compare, or something went wrong in it; distinct runs differ in options, model, endings and faults")
REAL = ["calliope.cli (click, in process)", "calliope (all of it)", "the model files on disk", "pyomo", "NetCDF, CSV and LP writing"]
STUB = ["the solver process boundary (seeded answers)", "the disk (seeded faults)", "standard output"]


def write_files(d, root, rng):
    d = models.clone(d)
    tables = c13.series_to_table(d, rng) if rng.random() < 0.5 else {}
    root.mkdir(parents=True, exist_ok=True)
    if tables:
        d["data_tables"]["demand"]["table"] = "demand.csv"
        (root / "demand.csv").write_text(tables["demand_table"]["csv"].replace("time,", "timesteps,", 1))
    f = c13.to_files(d, root, rng)
    shutil.copy(f, root / "model.cfg")
    shutil.copy(f, root / "model.yml")
    (root / "over.yaml").write_text("techs.sup0.color: '#123456'\nconfig.init.name: from a file\n")
    (root / "broken.yaml").write_text("config: {init: {name: [}\n")
    (root / "wrong.yaml").write_text("techs.sup0.base_tech: nonsense\n")


def groups(seed, tier):
    n_groups, n_plans = (8, 6) if tier == "quick" else (48, 80)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = c10.definition(rng, [0, 1, 2, 3, 6, 0, 2, 7][g % 8])
        mode = d["config"]["init"]["mode"]
        init = d["config"]["init"]
        init["extra_math"] = [x for x in init.get("extra_math", []) if x != "mine"]
        c13.extend(d, rng)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            plans.append(focus(plan(rng, mode, p), rng, g, p))
        out.append({"config": {"model": d, "mode": mode, "group": g, "seed": seed}, "plans": plans})
    return out


def plan(rng, mode, p):
    a = {}
    file = rng.choice(["model.yaml"] * 8 + ["model.yml", "model.cfg", "plain.nc", "plain.nc", "plain.nc", "plain.data", "plain.data", "solved.nc", "missing.yaml"])
    if p == 0:
        file = "model.yaml"
    if file in ("model.cfg", "plain.data") and rng.random() < 0.9:
        a["model_format"] = "yaml" if file == "model.cfg" else "netcdf"
    elif rng.random() < 0.03:
        a["model_format"] = rng.choice(["yaml", "netcdf", "json"])
    if file.startswith("model"):
        if rng.random() < 0.4:
            a["scenario"] = rng.choice(["s_all", "s_some", "s_nest"] * 4 + ["nonsense"])
        if rng.random() < 0.4:
            a["override_dict"] = rng.choice((["over.yaml"] if rng.random() < 0.85 else ["wrong.yaml", "broken.yaml"]) + ["{config.init.name: inline, techs.sup0.color: '#654321'}", "{techs: {sup0: {name: 'x y'}}}"])
    elif rng.random() < 0.04:
        a[rng.choice(["scenario", "override_dict"])] = "over.yaml"
    if rng.random() < 0.7:
        a["save_netcdf"] = rng.choice(["out.nc", "ü b.nc", "exists/out.nc"] * 5 + ["sub/out.nc"])
    if rng.random() < 0.6 or not a.get("save_netcdf"):
        a["save_csv"] = rng.choice(["csv", "deep/er/csv"] * 6 + ["exists"])
    if rng.random() < 0.3:
        a["save_logs"] = "logs"
    if rng.random() < 0.07:
        a["save_lp"] = "problem.lp"
    if mode == "spores" and "override_dict" not in a and file.startswith("model") and rng.random() < 0.5:
        a["override_dict"] = "{config.solve.spores.save_per_spore_path: exists}"
    flags = [f for f in ("--quiet", "--debug", "--profile", "--no_fail_when_infeasible", "--fail_when_infeasible") if rng.random() < {"--profile": 0.05, "--no_fail_when_infeasible": 0.3}.get(f, 0.15)]
    if "--no_fail_when_infeasible" in flags and "--fail_when_infeasible" in flags:
        flags.remove("--fail_when_infeasible")
    if "--profile" in flags:
        a["profile_filename"] = "prof.out"
    if rng.random() < 0.02:
        flags.append("--nonsense")
    ends = ["tag"] * 3 + ["infeasible", "limit_nosol", "limit_sol", "unbounded", "rc", "nofile", "interrupt", "killed"]
    outcomes = [{"kind": rng.choice(ends if rng.random() < (0.5 if "--no_fail_when_infeasible" in flags else 0.15) else ["tag"]), "seed": rng.randrange(10**6)} for _ in range(6)]
    fault = None
    k = rng.random()
    if k < 0.22:
        fault = {"kind": "disk", "at": rng.random(), "action": rng.choice(["fail", "fail", "short", "full"]), "errno": rng.choice(["EIO", "ENOSPC", "EACCES"])}
    elif k < 0.29:
        fault = {"kind": "quota", "at": rng.random()}
    elif k < 0.35:
        fault = {"kind": "read", "at": rng.randrange(60), "errno": "EIO"}
    elif k < 0.45:
        fault = {"kind": "call", "at": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"])}
    elif k < 0.5:
        fault = {"kind": "stdout", "at": rng.randrange(12), "errno": rng.choice(["EPIPE", "ENOSPC"])}
    return {"ops": [], "file": file, "args": a, "flags": flags, "outcomes": outcomes, "fault": fault}


def focus(plan, rng, g, p):
    """Some commands in which nothing goes wrong but how the solver ends, and some in which nothing does."""
    if p % 6 > 1:
        return plan
    plan["fault"] = None
    if plan["file"] in ("missing.yaml", "solved.nc"):
        plan["file"] = "plain.nc"
    a = plan["args"]
    a.pop("model_format", None)
    if plan["file"] in ("model.cfg", "plain.data"):
        a["model_format"] = "yaml" if plan["file"] == "model.cfg" else "netcdf"
    if plan["file"].startswith("plain"):
        a.pop("scenario", None)
        a.pop("override_dict", None)
    if a.get("scenario") == "nonsense":
        a["scenario"] = "s_all"
    if a.get("override_dict") in ("wrong.yaml", "broken.yaml"):
        a["override_dict"] = "over.yaml"
    if a.get("save_netcdf", "").startswith("sub"):
        a["save_netcdf"] = "out.nc"
    if a.get("save_csv") == "exists":
        a["save_csv"] = "csv"
    plan["flags"] = [f for f in plan["flags"] if f not in ("--nonsense", "--no_fail_when_infeasible")]
    end = "tag"
    if p % 6 == 1:
        end = ["limit_nosol", "unbounded", "infeasible", "limit_sol", "limit_nosol", "rc", "unbounded", "nofile"][(g + p // 6) % 8]
    plan["outcomes"] = [{"kind": end, "seed": rng.randrange(10**6)} for _ in range(6)]
    return plan


def shrink(p):
    if p["fault"]:
        yield {**p, "fault": None}
    for k in p["args"]:
        yield {**p, "args": {a: b for a, b in p["args"].items() if a != k}}
    for f in p["flags"]:
        yield {**p, "flags": [x for x in p["flags"] if x != f]}
    if any(o["kind"] != "tag" for o in p["outcomes"]):
        yield {**p, "outcomes": [{**o, "kind": "tag"} for o in p["outcomes"]]}


def prepare(config, ctx):
    import calliope

    root = pathlib.Path(ctx.scratch) / "model"
    write_files(config["model"], root, core.rng_for("files", config["group"], config["seed"]))
    m = calliope.read_yaml(root / "model.yaml")
    ctx.world.watch(m)
    m.to_netcdf(root / "plain.nc")
    shutil.copy(root / "plain.nc", root / "plain.data")
    m.build()
    lib.queue(ctx.world, [{"kind": "tag", "seed": i} for i in range(12)])
    m.solve()
    lib.queue(ctx.world, [])
    m.to_netcdf(root / "solved.nc")
    return {"root": str(root)}


def start(root, name):
    d = pathlib.Path(root) / name
    (d / "exists").mkdir(parents=True)
    (d / "exists" / "mine.txt").write_text("mine")
    os.chdir(d)
    return d


def override(base, text):
    return os.path.join(base["root"], text) if text.endswith(".yaml") else text


def through_python(base, plan, ctx):
    """What the Python interface does when asked for the same."""
    import calliope

    d = start(ctx.scratch, "python")
    a, w = plan["args"], ctx.world
    path = os.path.join(base["root"], plan["file"])
    fmt = a.get("model_format") or {"yaml": "yaml", "yml": "yaml", "nc": "netcdf"}.get(plan["file"].split(".")[-1])
    seen = {}

    def whole():
        if fmt == "yaml":
            kw = {"override_dict": calliope.io.read_rich_yaml(override(base, a["override_dict"]))} if "override_dict" in a else {}
            m = calliope.read_yaml(path, scenario=a.get("scenario"), **kw)
        elif fmt == "netcdf" and not ("scenario" in a or "override_dict" in a):
            m = calliope.read_netcdf(path)
        else:
            raise ValueError("refused by the command line")
        w.watch(m)
        m.build()
        if "save_lp" in a:
            m.backend.to_lp(a["save_lp"])
            seen["termination"] = "not run"
            return
        m.solve(**({"save_logs": a["save_logs"]} if "save_logs" in a else {}))
        seen["termination"] = m.runtime.termination_condition
        if "save_csv" in a:
            m.to_csv(a["save_csv"])
        if "save_netcdf" in a:
            m.to_netcdf(a["save_netcdf"])

    lib.queue(w, plan["outcomes"])
    with w.disk.armed(d) as use, interrupt.at() as calls:
        o = lib.attempt(whole)
    return o.ok, repr(o), seen.get("termination"), {"disk": use.mutations, "calls": calls.calls, "size": sum(f.stat().st_size for f in d.rglob("*") if f.is_file())}


class Out(io.StringIO):
    """Standard output that fails at a write."""

    def __init__(self, at=None, number=0):
        super().__init__()
        self.at, self.number, self.n, self.fired = at, number, 0, False

    def write(self, s):
        self.n += 1
        if self.at is not None and self.n > self.at:
            self.fired = True
            raise OSError(self.number, os.strerror(self.number))
        return super().write(s)


def command(base, plan, ctx, use):
    """The command; (exit status, whether the fault happened, its output)."""
    import contextlib
    import errno

    import calliope
    from calliope.cli import cli

    d = start(ctx.scratch, "command")
    w, f = ctx.world, plan["fault"] or {}
    args = ["run", os.path.join(base["root"], plan["file"])]
    for k, v in plan["args"].items():
        args.append(f"--{k}={override(base, v) if k == 'override_dict' else v}")
    args += plan["flags"]
    lib.queue(w, plan["outcomes"])
    # the labels of simulated solutions are known once the model is
    hook = calliope.Model.build

    def build(self, *a, **k):
        w.watch(self)
        return hook(self, *a, **k)

    calliope.Model.build = build
    out = Out(f["at"], getattr(errno, f["errno"])) if f.get("kind") == "stdout" else Out()
    faults, quota, root = [], None, d
    if f.get("kind") == "disk":
        faults = [{"at": int(f["at"] * max(1, use["disk"])), "action": f["action"], "errno": f["errno"], "arg": 1}]
    elif f.get("kind") == "quota":
        quota = int(f["at"] * use["size"])
    elif f.get("kind") == "read":
        faults, root = [{"at": f["at"], "cls": "read", "action": "readfail", "errno": f["errno"]}], pathlib.Path(ctx.scratch)
    at = int(f["at"] * use["calls"]) if f.get("kind") == "call" else None
    with w.disk.armed(root, faults, quota) as disk, interrupt.at(at, f.get("exc", "KeyboardInterrupt")) as calls, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            cli.main(args=args, prog_name="calliope", standalone_mode=True)
            status = 0
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except core.HarnessError:
            raise
        except BaseException as e:
            status = f"1 ({type(e).__name__})"
    return status, bool(disk.fired) or calls.where is not None or out.fired, io.StringIO.getvalue(out)[-300:], calls.where


def execute(base, plan, ctx):
    a, f = plan["args"], plan["fault"] or {}
    kind, ref = ctx.fork(lambda: through_python(base, plan, ctx))
    if kind != "ok":
        raise core.HarnessError(f"reference: {ref}")
    ok, text, termination, use = ref
    kind, got = ctx.fork(lambda: command(base, plan, ctx, use))
    if kind == "died":
        ctx.fail("crash", f"the command died with {got}")
    if kind != "ok":
        raise core.HarnessError(f"command: {got}")
    status, fired, said, where = got
    facts = {"options": sorted(a), "fault": f.get("kind"), "reference": text.split(":")[0], "termination": termination}
    ctx.evaluations += 1
    ctx.nontrivial = fired or not ok or status == 0
    if fired:
        ctx.fault(f"{f['kind']}:{f.get('action', f.get('exc', f.get('errno', '')))}")
    for o in plan["outcomes"][:1]:
        ctx.fault("solver:" + o["kind"])
    ctx.log(plan["file"], sorted(a.items()), plan["flags"], status, ok, termination, fired)
    strict = "--no_fail_when_infeasible" not in plan["flags"] and "save_lp" not in a
    if status == 0:
        ctx.probe("exit 0")
        if "--nonsense" in plan["flags"]:
            ctx.fail("unknown-option", "an unknown option was accepted", **facts)
        if not ok:
            ctx.fail("exit-0-on-failure", f"exit status 0, though through Python: {text}", **facts)
        if strict and termination != "optimal":
            ctx.fail("exit-0-not-optimal", f"exit status 0 with {termination}", **facts)
        d = outputs(pathlib.Path(ctx.scratch), a, fired)
        if d:
            ctx.fail("incomplete" if fired else "wrong-outputs", f"exit status 0 ({f.get('kind', 'no fault')}{' at ' + where if where else ''}): {d}", **facts)
        if "profile_filename" in a and "--profile" in plan["flags"] and not (pathlib.Path(ctx.scratch) / "command" / a["profile_filename"]).exists():
            ctx.fail("wrong-outputs", "no profile", **facts)
    elif not fired and ok and (not strict or termination == "optimal") and "--nonsense" not in plan["flags"]:
        ctx.fail("needless-failure", f"exit status {status}, though through Python: {text} and {termination}; it said {said}", **facts)


def outputs(scratch, a, fired):
    """What is missing or different in the outputs of the command."""
    p, c = scratch / "python", scratch / "command"
    names = {q.relative_to(p) for q in p.rglob("*") if q.is_file() and q.parts[-2] != "logs"}
    have = {q.relative_to(c) for q in c.rglob("*") if q.is_file() and q.parts[-2] != "logs"} - {pathlib.Path("prof.out")}
    if names - have:
        return f"missing {sorted(map(str, names - have))[:3]}"
    if have - names and not fired:
        return f"unexpected {sorted(map(str, have - names))[:3]}"
    for n in sorted(names):
        x, y = p / n, c / n
        if n.suffix == ".nc":
            d = netcdf(x, y)
            if d:
                return f"{n}: {d}"
        elif n.name == "attrs.yaml":
            s, t = (lib.plain(dict(yaml(q))) for q in (x, y))
            for q in (s, t):
                q["runtime"].pop("timings", None)
            d = lib.diff_plain(s, t)
            if d:
                return f"{n}: {d[0]}"
        elif x.read_bytes() != y.read_bytes():
            return f"{n} differs: {first(x, y)}"
    if "save_logs" in a and "save_lp" not in a:
        kinds = [sorted("".join(q.suffixes[-2:]) for q in (r / a["save_logs"]).glob("*")) for r in (p, c)]
        if kinds[0] != kinds[1]:
            return f"logs {kinds[1]} instead of {kinds[0]}"
    return ""


def yaml(path):
    import calliope

    return calliope.io.read_rich_yaml(path)


def first(x, y):
    for s, t in zip(x.read_text(errors="replace").splitlines(), y.read_text(errors="replace").splitlines()):
        if s != t:
            return f"{s[:100]} / {t[:100]}"
    return "length"


def netcdf(x, y):
    from calliope import io as cio

    try:
        s, t = cio.read_netcdf(x), cio.read_netcdf(y)
    except Exception as e:
        return f"cannot be loaded: {e!r}"
    for g in ("inputs", "results"):
        d = lib.compare_datasets(s[g], t[g], g + ": ", exact=True)
        if d:
            return d[0]
    s, t = (lib.plain(dict(q["attrs"].attrs)) for q in (s, t))
    for q in (s, t):
        q["runtime"].pop("timings", None)
    d = lib.diff_plain(s, t)
    return d[0] if d else ""
