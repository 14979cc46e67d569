"""C13: the same model definition always gives the same model and results."""
from __future__ import annotations

import json
import os
import pathlib
import subprocess
import sys

from sim import core, models, transcript
from sim.checks import c10

ID = "C13"
LEVEL = ("deterministic simulation: each seeded session (load, build, solve with seeded solver answers, update, export) is repeated with another interpreter hash seed, directory "
         "order, clock (standing still, jumping, running backwards), log level and process history, and must show the same line by line")
RULE = ("one evaluation is one repetition of a session in other surroundings; nontrivial always; distinct runs differ in surroundings and session")
REAL = ["calliope (all of it)", "pyomo", "CPython's string hashing", "pandas' and pyomo's writers"]
STUB = ["the wall clock", "the order in which directories are listed", "the solver process boundary (seeded answers)"]


def extend(d, rng):
    """Overrides, scenarios of scenarios and templates, all of which may be combined in any order."""
    ov = d.setdefault("overrides", {})
    names = ["zeta", "alpha", "mid", "überall", "b2", "x1", "quick"]
    rng.shuffle(names)
    mode = d["config"]["init"]["mode"]
    cap = "flow_cap" if mode == "operate" else "flow_cap_max"
    node = list(d["nodes"])[0]
    for i, n in enumerate(names[:rng.randint(2, 6)]):
        ov[n] = {"techs": {f"add_{n}": {"name": n, "base_tech": "supply", "carrier_out": "el", cap: 5.0 + i, "cost_flow_out": models.cost(rng)}},
                 "nodes": {node: {"techs": {f"add_{n}": None}}}}
        if rng.random() < 0.3:
            ov[n]["config"] = {"solve": {"zero_threshold": 1e-9}} if not any("config" in o for o in ov.values()) else {"build": {}}
    if rng.random() < 0.2:
        # two overrides that contradict each other
        a, b = rng.sample(sorted(k for k in ov), 2)
        for k in (a, b):
            ov[k].setdefault("techs", {}).setdefault("sup0", {})["color"] = "#" + ("%06x" % rng.randrange(16**6))
    mine = [k for k in ov]
    sc = d.setdefault("scenarios", {})
    sc["s_all"] = list(mine)
    sc["s_some"] = rng.sample(mine, max(1, len(mine) // 2))
    sc["s_nest"] = ["s_some", rng.choice(mine)]
    t = d.setdefault("templates", {})
    t["common"] = {"color": "#112233", "flow_out_eff": 0.9}
    t["more"] = {"template": "common", "carrier_out": "el", "base_tech": "supply", cap: 30.0, "cost_flow_out": models.cost(rng), "name": "from a template"}
    d["techs"]["templated"] = {"template": "more"}
    d["nodes"][node]["techs"]["templated"] = None
    return rng.choice(["s_all", "s_some", "s_nest", ",".join(rng.sample(mine, len(mine))), None])


def to_files(d, root, rng):
    """The definition as YAML files that import each other, with math files beside them; returns the main file."""
    root.mkdir(parents=True, exist_ok=True)
    d = models.clone(d)
    mp = d["config"]["init"].get("math_paths", {})
    for k, f in mp.items():
        (root / f"math_{k}.yaml").write_text(pathlib.Path(f).read_text())
        mp[k] = f"math_{k}.yaml"
    parts = []
    for k in ("techs", "nodes", "overrides", "scenarios", "templates"):
        if k in d and rng.random() < 0.7:
            (root / f"{k}.yaml").write_text(dump({k: d.pop(k)}))
            parts.append(f"{k}.yaml")
    if parts:
        d["import"] = parts
    (root / "model.yaml").write_text(dump(d))
    return str(root / "model.yaml")


def dump(x):
    return json.dumps(x).replace("NaN", ".nan").replace("Infinity", ".inf")


def series_to_table(d, rng):
    """Move the demand series into a data table that is passed as a data frame; returns the tables."""
    t = d["techs"]["dem"].pop("sink_use_equals")
    hosts = [n for n in d["nodes"] if "dem" in d["nodes"][n]["techs"]]
    if not hosts:
        d["techs"]["dem"]["sink_use_equals"] = t
        return {}
    for n in hosts:
        d["nodes"][n]["techs"]["dem"] = None
    rng.shuffle(hosts)
    lines = ["time," + ",".join(hosts)] + [",".join([i] + [str(round(v * (1 + 0.1 * j), 3)) for j in range(len(hosts))]) for i, v in zip(t["index"], t["data"])]
    d["data_tables"] = {"demand": {"table": "demand_table", "rows": "timesteps", "columns": "nodes", "add_dims": {"inputs": "sink_use_equals", "techs": "dem"}}}
    return {"demand_table": {"csv": "\n".join(lines) + "\n", "index": 0, "header": 0}}


def groups(seed, tier):
    n_groups, n_plans = (8, 6) if tier == "quick" else (48, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = c10.definition(rng, g)
        kw["scenario"] = extend(d, rng)
        if rng.random() < 0.4:
            kw["override_dict"] = {**kw.get("override_dict", {}), "techs.sup0.color": "#abcdef"}
        tables = series_to_table(d, rng) if g % 3 == 0 else {}
        mode = d["config"]["init"]["mode"]
        outs = lambda: [{"kind": rng.choice(["tag", "tag", "tag", "tag", "infeasible", "limit_sol"]), "seed": rng.randrange(10**6)} for _ in range(6)]
        opt = {"spores": {"number": 2, "scoring_algorithm": "random" if g % 2 == 0 else "evolving_average"}} if mode == "spores" else {}
        ops = [{"op": "read"}, {"op": "build"}, {"op": "solve", "outcomes": outs(), "options": opt}, {"op": "save"}, {"op": "reload"}]
        if mode == "base" and rng.random() < 0.6:
            ops += [{"op": "build"}, {"op": "update", "param": rng.choice(c10.UPDATES), "factor": 0.9}, {"op": "solve", "outcomes": outs(), "options": {}}]
        other = models.system(rng, mode=rng.choice(["base", "operate"]), steps=2, nodes=2)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            env = {}
            if rng.random() < 0.5:
                env["clock"] = {"base": rng.choice([0, 1_600_000_000_000_000_000, -86_400_000_000_000]), "step": rng.choice([0, 1000, -5_000_000, 3_600_000_000_000]),
                                "jumps": [[rng.randrange(200), rng.choice([-1, 1]) * rng.randrange(10**17)] for _ in range(rng.choice([0, 1, 3]))]}
            if rng.random() < 0.6:
                env["order"] = rng.randrange(1000)
            if rng.random() < 0.4:
                env["log"] = {"level": rng.choice(["debug", "info", "warning"]), "solver": rng.random() < 0.5}
            prior = []
            if rng.random() < 0.35:
                prior = [{"model": other, "ops": [{"op": "read"}, {"op": "build"}, {"op": "solve", "outcomes": [{"kind": rng.choice(["tag", "infeasible", "rc", "interrupt"]), "seed": 5}], "options": rng.choice([{}, {"save_logs": "logs"}])}]}]
                if rng.random() < 0.5:
                    prior.append("same")
            plans.append({"ops": [], "env": env, "hash": rng.choice([None, 1, 2, 3, 4, 5, 6, 7, 11, 12]) if p % 5 else rng.randrange(1, 1000), "prior": prior, "py_seed": rng.randrange(1000)})
        out.append({"config": {"model": d, "read": kw, "tables": tables, "ops": ops, "files": g % 2 == 1, "group": g, "seed": seed}, "plans": plans})
    return out


def shrink(plan):
    for k, v in (("prior", []), ("hash", None)):
        if plan[k] != v:
            yield {**plan, k: v}
    for k in plan["env"]:
        yield {**plan, "env": {a: b for a, b in plan["env"].items() if a != k}}
    if len(plan["prior"]) > 1:
        yield {**plan, "prior": plan["prior"][:1]}


def prepare(config, ctx):
    job = {k: config[k] for k in ("model", "read", "tables", "ops")}
    if config["files"]:
        job["file"] = to_files(config["model"], pathlib.Path(ctx.scratch) / "definition", core.rng_for("files", config["group"], config["seed"]))
    ref = pathlib.Path(ctx.scratch) / "reference"
    ref.mkdir()
    kind, lines = ctx.fork(lambda: transcript.run(ctx.world, job, ref))
    if kind != "ok":
        raise core.HarnessError(f"reference session: {lines}")
    return {"job": job, "lines": lines}


def execute(base, plan, ctx):
    job = {**base["job"], "env": plan["env"], "py_seed": plan["py_seed"]}
    same = {**base["job"], "ops": base["job"]["ops"][:3]}
    job["prior"] = [same if p == "same" else p for p in plan["prior"]]
    scratch = pathlib.Path(ctx.scratch) / "session"
    scratch.mkdir()
    job["prior"] = [with_logs(p, ctx.scratch) for p in job["prior"]]
    facts = {"surroundings": sorted(plan["env"]), "hash": plan["hash"] is not None, "prior": len(plan["prior"])}
    if plan["hash"] is None:
        def run():
            with transcript.surroundings(ctx.world, plan["env"]):
                return transcript.run(ctx.world, job, scratch)

        kind, lines = ctx.fork(run)
        if kind != "ok":
            raise core.HarnessError(f"session: {lines}")
    else:
        lines = in_process(job, plan["hash"], ctx, scratch)
    ctx.nontrivial = True
    for k in plan["env"]:
        ctx.fault("surroundings:" + k)
    if plan["hash"] is not None:
        ctx.fault("surroundings:hash seed")
    if plan["prior"]:
        ctx.fault("surroundings:prior use")
    ctx.log(len(lines), core.digest(lines), sorted(plan["env"]), plan["hash"], len(plan["prior"]))
    d = first_difference(base["lines"], lines)
    if d:
        ctx.fail("differs", d, **facts)


def with_logs(p, scratch):
    ops = []
    for op in p["ops"]:
        if op.get("options", {}).get("save_logs"):
            op = {**op, "options": {**op["options"], "save_logs": str(pathlib.Path(scratch) / "logs")}}
        ops.append(op)
    return {**p, "ops": ops}


def in_process(job, seed, ctx, scratch):
    """The session in an interpreter of its own."""
    job_path, out_path = pathlib.Path(ctx.scratch) / "job.json", pathlib.Path(ctx.scratch) / "out.json"
    job_path.write_text(json.dumps({**job, "scratch": str(scratch)}))
    env = {**os.environ, "PYTHONHASHSEED": str(seed)}
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.transcript", str(job_path), str(out_path)], env=env, capture_output=True, text=True, timeout=400)
    if r.returncode or not out_path.exists():
        raise core.HarnessError(f"session process: {r.returncode} {r.stderr[-2000:]}")
    return json.loads(out_path.read_text())


def first_difference(a, b):
    if a == b:
        return ""
    for x, y in zip(a, b):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            i = max(0, i - 60)
            return f"{x[:70]}: ...{x[i:i + 160]} became ...{y[i:i + 160]}"
    return f"{len(a)} lines became {len(b)}: {(a + b)[min(len(a), len(b))][:150]}"
