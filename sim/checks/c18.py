"""C18: generated run scripts run each scenario exactly once under any job order."""
from __future__ import annotations

import contextlib
import io
import os
import pathlib
import re
import shutil
import signal
import subprocess

from sim import core, lib

ID = "C18"
LEVEL = ("deterministic simulation: the scripts that the real command line writes for seeded models, names and options are executed by the real shells in a simulated LSF or SLURM array (or as "
         "plain shell scripts) that starts, fails, kills and re-queues jobs in a seeded order; a stand-in for `calliope` records each invocation, and the real command line's option parser "
         "says what it would do; disk errors are injected while scripts are written")
RULE = "one evaluation is one generated script with its schedule; nontrivial when it had at least two runs; distinct runs differ in names, options, schedule and faults"
REAL = ["calliope.cli and calliope.util.generate_runs", "the generated scripts, run by /bin/sh and bash", "calliope.io (reading models, writing scenario files)", "the option parser of `calliope run`"]
STUB = ["the `calliope` command run by the scripts (records its arguments, ends as the plan says)", "the cluster's scheduler", "the disk while scripts are written (seeded faults)"]

PLAIN = ["low", "high_cost", "y2000", "y2001", "a-b", "n1_", "cold_fusion", "x", "UP", "s10"]
ODD = ["two words", "wärme", "it's", "$HOME", "a&b", "(x)", "2005", "`echo x`", 'say "hi"', "back\\slash", "#4", "{i}", "%d", "a|b", "x>y", "*", "~", "in/out", "!not", "-x"]
STAND_IN = """#!/bin/sh
n=$(ls "$SIM_RECORDS" | wc -l)
printf '%s\\0' "$PWD" "$@" > "$SIM_RECORDS/$(printf %05d "$n")"
x=$(sed -n "$((n + 1))p" "$SIM_ENDS")
if [ "$x" = kill ]; then kill -9 0; fi
exit "${x:-0}"
"""
YAML_OVERRIDES = ["{config.init.name: quick}", "{config.init.name: 'two words', techs.a.color: \"#fff\"}", "{config.init.name: \"cost $5 `q`\"}", "config.init.name: 'back\\slash'"]
ARGS = [("--debug", ["--debug"]), ("--quiet --no_fail_when_infeasible", ["--quiet", "--no_fail_when_infeasible"]), ("--save_csv='my csv'", ["--save_csv=my csv"]),
        ("--save_logs logs --debug", ["--save_logs", "logs", "--debug"])]


def names(rng, n):
    pool = PLAIN + ODD if rng.random() < 0.6 else PLAIN
    return rng.sample(pool, min(n, len(pool)))


def groups(seed, tier):
    n_groups, n_plans = (8, 50) if tier == "quick" else (64, 400)
    out = []
    for g in range(n_groups):
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            plans.append({"ops": [generation(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "model_dir": rng.choice([".", ".", "my models", "sub"]), "file": rng.choice(["model.yaml", "model.yaml", "my model.yaml", "m$1.yaml"]),
                          "out": rng.choice(["run.sh", "run.sh", "go", "all runs.sh", "s&p.sh"])})
        out.append({"config": {"group": g}, "plans": plans})
    return out


def generation(rng):
    overrides = names(rng, rng.choice([1, 2, 3, 4, 11]))
    scenarios = {}
    if rng.random() < 0.5:
        for s in names(rng, rng.choice([1, 2, 3, 10, 12])):
            scenarios[s] = rng.sample(overrides, rng.randint(1, min(3, len(overrides))))
    op = {"op": "generate", "kind": rng.choice(["bash", "bash", "bsub", "sbatch"]), "overrides": overrides, "model_scenarios": scenarios, "imported": rng.random() < 0.3}
    if rng.random() < 0.5:
        asked = [n for n in overrides if not set(n) & set(";")] + [n for n in scenarios]
        op["scenarios"] = [",".join(rng.sample(overrides, 2)) if rng.random() < 0.3 and len(overrides) > 1 else rng.choice(asked) for _ in range(rng.choice([1, 2, 3, 9, 10, 11]))]
        op["separator"] = rng.choice([";", ";", "; "])
    elif rng.random() < 0.3:
        op["from_overrides"] = [rng.sample(overrides, rng.randint(1, len(overrides))) for _ in range(rng.choice([1, 2]))]
        op["prefix"] = rng.choice([None, "run_", "my run "])
    if rng.random() < 0.4:
        op["override_dict"] = rng.choice(YAML_OVERRIDES + ["over.yaml", "my over.yaml"])
        op["more"] = names(rng, 2) if rng.random() < 0.5 and op["override_dict"].endswith(".yaml") and "from_overrides" not in op else []
    if rng.random() < 0.4:
        op["additional_args"] = rng.randrange(len(ARGS))
    if op["kind"] in ("bsub", "sbatch"):
        op["mem"], op["threads"] = rng.choice(["1G", "500", "16G"]), rng.choice([1, 2, 16])
        op["time"] = rng.choice(["100", "5", "59", "60", "1439", "1440", "2000", "10000", "1:30:00", "02:00", "0.5"] if op["kind"] == "sbatch" else ["100", "5", "2000", "4:30"])
    # how jobs end, in the order in which they are started
    op["schedule"] = rng.randrange(10**6)
    op["ends"] = [rng.choice(["0", "0", "0", "1", "2", "137", "kill"] if rng.random() < 0.5 else ["0"]) for _ in range(40)]
    if rng.random() < 0.12:
        op["fault"] = {"at": rng.randrange(8), "action": rng.choice(["fail", "short", "full"]), "errno": rng.choice(["EIO", "ENOSPC"]), "arg": 1}
    return op


def shrink(p):
    yield from core.default_shrink(p)
    for i, op in enumerate(p["ops"]):
        for k in ("fault", "override_dict", "additional_args", "scenarios", "from_overrides"):
            if k in op:
                yield {**p, "ops": [{a: b for a, b in o.items() if a != k} if j == i else o for j, o in enumerate(p["ops"])]}
        if any(e != "0" for e in op["ends"]):
            yield {**p, "ops": [{**o, "ends": []} if j == i else o for j, o in enumerate(p["ops"])]}
    for k, v in (("out", "run.sh"), ("file", "model.yaml"), ("model_dir", ".")):
        if p[k] != v:
            yield {**p, k: v}


def prepare(config, ctx):
    root = pathlib.Path(ctx.scratch) / "bin"
    root.mkdir()
    (root / "calliope").write_text(STAND_IN)
    (root / "calliope").chmod(0o755)
    return {"bin": str(root)}


def text(x):
    import json

    return json.dumps(x, ensure_ascii=False)


def write_model(path, op, folder):
    """The model, and the runs it asks for if none are given."""
    extra = ""
    scenarios = dict(op["model_scenarios"])
    if op.get("from_overrides"):
        extra = "import: ['generated.yaml']\n"
        scenarios = {}
    elif scenarios and op["imported"]:
        (folder / "scenarios.yaml").write_text("scenarios:\n" + "".join(f"  {text(s)}: {text(o)}\n" for s, o in scenarios.items()))
        extra = "import: ['scenarios.yaml']\n"
        scenarios = {}
    body = extra + "config.init.name: m\noverrides:\n" + "".join(f"  {text(o)}:\n    config.init.name: {text(o + ' applied')}\n" for o in op["overrides"])
    if scenarios:
        body += "scenarios:\n" + "".join(f"  {text(s)}: {text(o)}\n" for s, o in scenarios.items())
    path.write_text(body, encoding="utf-8")


def command(args):
    from calliope.cli import cli

    with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(out):
        try:
            cli.main(args=args, prog_name="calliope", standalone_mode=True)
            return 0, out.getvalue()
        except SystemExit as e:
            return (e.code if isinstance(e.code, int) else 0 if e.code is None else 1), out.getvalue()


def generate(op, plan, root, ctx):
    """Write the script with the command line; (exit status, what it said, runs expected)."""
    os.chdir(root)
    folder = root / plan["model_dir"]
    model = folder / plan["file"]
    write_model(model, op, folder)
    said = ""
    if op.get("from_overrides"):
        (folder / "generated.yaml").unlink(missing_ok=True)
        args = ["generate_scenarios"] + ([f"--scenario_name_prefix={op['prefix']}"] if op["prefix"] else [])
        args += ["--", os.path.relpath(model, root), str(folder / "generated.yaml")] + [";".join(o) for o in op["from_overrides"]]
        code, said = command(args)
        if code:
            return code, "generate_scenarios: " + said
    args = ["generate_runs", os.path.relpath(model, root), plan["out"], f"--kind={op['kind']}"]
    if "scenarios" in op:
        args.append("--scenarios=" + op["separator"].join(op["scenarios"]))
    if "override_dict" in op:
        args.append("--override_dict=" + op["override_dict"])
        for f in ("over.yaml", "my over.yaml"):
            (root / f).write_text("config.init.name: overridden\n" + ("scenarios:\n" + "".join(f"  {text(s)}: {text(op['overrides'][:1])}\n" for s in op["more"]) if op.get("more") else ""))
    if "additional_args" in op:
        args.append("--additional_args=" + ARGS[op["additional_args"]][0])
    if op["kind"] in ("bsub", "sbatch"):
        args += [f"--cluster_mem={op['mem']}", f"--cluster_time={op['time']}", f"--cluster_threads={op['threads']}"]
    if op.get("fault"):
        with ctx.world.disk.armed(root, [op["fault"]]) as use:
            code, said = command(args)
        return code, said, bool(use.fired)
    code, said = command(args)
    return code, said, False


def expected(op, plan, root):
    """The scenarios to run, in order."""
    if "scenarios" in op:
        return [s.strip() for s in op["scenarios"]]
    found = []
    if op.get("from_overrides"):
        import itertools

        n = len(list(itertools.product(*op["from_overrides"])))
        found = [(op["prefix"] or "scenario_") + str(i + 1).zfill(len(str(n))) for i in range(n)]
    elif op["model_scenarios"]:
        found = list(op["model_scenarios"])
    if op.get("more"):
        found += [s for s in op["more"] if s not in found]
    return found or list(op["overrides"])


def execute(base, plan, ctx):
    root = pathlib.Path(ctx.scratch) / "submit here"
    (root / plan["model_dir"]).mkdir(parents=True)
    for k, op in enumerate(plan["ops"]):
        kind, got = ctx.fork(lambda: generate(op, plan, root, ctx))
        if kind != "ok":
            raise core.HarnessError(f"generate: {got}")
        code, said, *fired = got
        ctx.evaluations += 1
        ctx.log(op["kind"], code, fired)
        runs = expected(op, plan, root)
        facts = {"kind": op["kind"], "n": len(runs), "odd": sorted(set("".join(runs)) - set("abcdefghijklmnopqrstuvwxyzUP_.-0123456789"))}
        if fired and fired[0]:
            ctx.fault("disk:" + op["fault"]["action"])
        if code:
            if not (fired and fired[0]):
                ctx.fail("refused", f"no script for {runs}: {said[-300:]}", **facts)
            continue
        ctx.nontrivial |= len(runs) > 1
        if op.get("from_overrides"):
            scenarios_file(ctx, op, root / plan["model_dir"] / "generated.yaml", runs, facts)
        ctx.probe(op["kind"])
        simulate(base, plan, op, ctx, root, runs, facts, k)


def scenarios_file(ctx, op, path, runs, facts):
    import itertools

    import calliope

    got = lib.plain(dict(calliope.io.read_rich_yaml(path).scenarios))
    want = {n: list(c) for n, c in zip(runs, itertools.product(*op["from_overrides"]))}
    if got != want:
        ctx.fail("scenarios", f"generated scenarios are {got}, expected {want}", **facts)


def directives(lines, mark):
    return [x[len(mark):].strip() for x in lines if x.startswith(mark)]


def indices(spec):
    """Array indices of `1-5`, `1,3`, `1-9:2`, `1-5%2`."""
    out = []
    for part in spec.split("%")[0].split(","):
        m = re.fullmatch(r"(\d+)(?:-(\d+)(?::(\d+))?)?", part)
        if not m:
            raise ValueError(spec)
        out += range(int(m[1]), int(m[2] or m[1]) + 1, int(m[3] or 1))
    return out


def minutes(t):
    """Minutes of a SLURM time: minutes, minutes:seconds, hours:minutes:seconds, days-..."""
    days, _, rest = t.rpartition("-")
    parts = [float(x) for x in rest.split(":")]
    if days:
        parts = (parts + [0, 0])[:3]
    elif len(parts) == 1:
        parts = [0, parts[0], 0]
    elif len(parts) == 2:
        parts = [0, *parts]
    return float(days or 0) * 1440 + parts[0] * 60 + parts[1] + parts[2] / 60


def simulate(base, plan, op, ctx, root, runs, facts, k):
    script = root / plan["out"]
    lines = script.read_text(encoding="utf-8").splitlines()
    rng = core.rng_for(ID, "schedule", op["schedule"])
    n = len(runs)
    jobs = list(range(1, n + 1))
    if op["kind"] == "bsub":
        d = directives(lines, "#BSUB")
        array = [re.search(r"\[(.*)\]", x) for x in d if x.startswith("-J")]
        jobs = indices(array[0][1]) if array and array[0] else []
        asked = {"-n": str(op["threads"]), "-W": op["time"]}
        wrong = [f"{a} {b}" for a, b in asked.items() if f"{a} {b}" not in d] + ([] if any(f"mem={op['mem']}" in x for x in d) else ["memory"])
    elif op["kind"] == "sbatch":
        d = dict(x.lstrip("-").split("=", 1) for x in directives(lines, "#SBATCH") if "=" in x)
        jobs = indices(d.get("array", "1"))
        wrong = [f"{a} {b}" for a, b in (("ntasks", str(op["threads"])), ("mem", op["mem"])) if d.get(a) != b]
        if abs(minutes(d.get("time", "0")) - minutes(op["time"])) > 1 / 30:
            wrong.append(f"time {op['time']}, not {d.get('time')}")
    if op["kind"] != "bash":
        if sorted(jobs) != list(range(1, n + 1)):
            ctx.fail("array", f"the array is {jobs} for {n} scenarios", **facts)
        if wrong:
            ctx.fail("resources", f"requested {wrong}; the script says {[x for x in lines if x.startswith('#')]}", **facts)
    outputs = {}
    if op["kind"] == "bash":
        # all in one go
        ends = [e for e in op["ends"]]
        calls = start(base, plan, op, ctx, root, script, None, ends, k)
        stop = ends[:n].index("kill") + 1 if "kill" in ends[:n] else n
        if stop < n:
            ctx.fault("job killed")
        if len(calls) != stop:
            ctx.fail("sequential", f"run without an index it started {len(calls)} of {n} runs: {[c[1:] for c in calls][:4]}", **facts)
        for i, c in enumerate(calls):
            judge(ctx, plan, op, root, c, runs[i], i + 1, outputs, facts)
    queue = [(i, None) for i in jobs]
    rng.shuffle(queue)
    ends = iter(op["ends"])
    limit = 14 if len(queue) > 14 else len(queue)
    done = 0
    while queue and done < limit + 4:
        i, _ = queue.pop(rng.randrange(len(queue)) if rng.random() < 0.5 else 0)
        end = next(ends, "0")
        done += 1
        calls = start(base, plan, op, ctx, root, script, i, [end], k)
        if len(calls) != 1:
            ctx.fail("index", f"job {i} of {n} started {len(calls)} runs: {[c[1:] for c in calls][:3]}", **facts)
        judge(ctx, plan, op, root, calls[0], runs[i - 1], i, outputs, facts)
        if end != "0":
            ctx.fault("job killed" if end == "kill" else "job failed")
            if rng.random() < 0.7:
                ctx.fault("job re-queued")
                queue.append((i, None))
    ctx.log(n, sorted(outputs.items()))


def start(base, plan, op, ctx, root, script, index, ends, k):
    """Run a job; its invocations of calliope."""
    records = pathlib.Path(ctx.scratch) / "records"
    shutil.rmtree(records, ignore_errors=True)
    records.mkdir()
    f = pathlib.Path(ctx.scratch) / "ends"
    f.write_text("\n".join(ends) + "\n")
    env = {"PATH": base["bin"] + ":/usr/bin:/bin", "HOME": str(root), "SIM_RECORDS": str(records), "SIM_ENDS": str(f), "LANG": "C.UTF-8"}
    cwd, args = root, ["./" + script.name] + ([str(index)] if index else [])
    if op["kind"] == "bsub":
        env["LSB_JOBINDEX"] = str(index)
        args = ["/bin/sh", str(script)]
    elif op["kind"] == "sbatch":
        spool = pathlib.Path(ctx.scratch) / "spool"
        spool.mkdir(exist_ok=True)
        shutil.copy(script, spool / "slurm_script")
        env |= {"SLURM_ARRAY_TASK_ID": str(index), "SLURM_SUBMIT_DIR": str(root)}
        args = ["/bin/bash", str(spool / "slurm_script")]
    p = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        said = p.communicate(timeout=60)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        ctx.fail("hangs", f"the script did not end (index {index})", kind=op["kind"])
    ctx.log("job", index, p.returncode, len(said.splitlines()))
    return [r.read_bytes().decode("utf-8", "surrogateescape").split("\0")[:-1] for r in sorted(records.iterdir())]


def judge(ctx, plan, op, root, call, scenario, i, outputs, facts):
    from calliope.cli import run

    import click

    cwd, *argv = call
    if argv[:1] != ["run"]:
        ctx.fail("invocation", f"run {i} is `calliope {argv}`", **facts)

    def parse(args):
        with run.make_context("run", list(args), resilient_parsing=False) as c:
            return dict(c.params)

    try:
        got = parse(argv[1:])
    except click.exceptions.ClickException as e:
        ctx.fail("invocation", f"run {i}, `calliope {argv}`, is refused: {e.format_message()}", **facts)
    want = parse(["m"] + (ARGS[op["additional_args"]][1] if "additional_args" in op else []))
    want |= {"scenario": scenario, "override_dict": op.get("override_dict")}
    model = (root / plan["model_dir"] / plan["file"]).resolve()
    if (pathlib.Path(cwd) / got["model_file"]).resolve() != model:
        ctx.fail("model", f"run {i} is of {got['model_file']!r} in {cwd!r}, not {model}", **facts)
    for key in want:
        if key not in ("model_file", "save_netcdf") and got[key] != want[key]:
            ctx.fail("options", f"run {i} has {key} {got[key]!r}, expected {want[key]!r}", option=key, **facts)
    out = got["save_netcdf"]
    path = pathlib.Path(cwd) / out if out else None
    if not out or not path.parent.is_dir():
        ctx.fail("output", f"run {i} saves to {out!r}", **facts)
    for j, other in outputs.items():
        if j != i and other == str(path):
            ctx.fail("output", f"runs {j} and {i} save to the same file {out!r}", **facts)
    outputs[i] = str(path)
