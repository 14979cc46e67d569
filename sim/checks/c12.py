"""C12: CSV and LP exports are complete or fail loudly, and never overwrite unasked."""
from __future__ import annotations

import csv
import io
import math
import pathlib

import numpy as np
import pandas as pd

from sim import core, lib, lpfile, models
from sim.checks import c10

ID = "C12"
LEVEL = ("deterministic simulation: seeded histories of CSV and LP exports, solves with seeded endings and changes of the problem, with a kill, full disk, input/output error or short "
         "write at a seeded file-system call of an export; every file of an export that returned is compared entry by entry with the model in memory and the LP file with the problem")
RULE = ("one evaluation is one export; nontrivial if a disk fault struck or the target existed; distinct runs differ in history, targets and where the faults struck")
REAL = ["calliope (all of it)", "pandas' and pyomo's writers", "the file system behind the fault points"]
STUB = ["file-system calls of the process (real ones, failed, cut short or ended by the simulator)", "the solver process boundary (seeded answers and endings)"]


def fault(rng):
    a = rng.choice(["fail", "fail", "fail", "short", "full", "full", "kill", "torn", "quota"])
    f = {"action": a, "frac": round(rng.random() if rng.random() < 0.8 else 1 - rng.random() * 0.05, 4)}
    if a in ("fail", "full"):
        f["errno"] = "ENOSPC" if a == "full" else rng.choice(["EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE"])
    if a in ("short", "torn"):
        f["arg"] = rng.choice([0, 1, 7, 64])
    return f


def groups(seed, tier):
    n_groups, n_plans = (8, 18) if tier == "quick" else (72, 120)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = c10.definition(rng, g)
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.random()
                if k < 0.2:
                    ops.append({"op": "solve", "outcomes": [{"kind": rng.choice(c10.ENDINGS if rng.random() < 0.5 else ["tag"]), "seed": rng.randrange(10**6)} for _ in range(4)]})
                elif k < 0.3:
                    ops.append({"op": "update", "param": rng.choice(c10.UPDATES), "factor": round(rng.uniform(0.7, 1), 3), "what": rng.choice(["input", "input", "fix", "bounds"])})
                elif k < 0.34:
                    ops.append({"op": "objective"})
                elif k < 0.38:
                    ops.append({"op": "verbose"})
                elif k < 0.75:
                    ops.append({"op": "csv", "path": rng.choice(["out", "out", "out", "deep/er/out"]), "dropna": rng.random() < 0.6, "overwrite": rng.random() < 0.5,
                                "fault": fault(rng) if rng.random() < 0.5 else None, "as": rng.choice(["str", "path"])})
                else:
                    ops.append({"op": "lp", "path": rng.choice(["m.lp", "m.lp", "ü m.lp"]), "fault": fault(rng) if rng.random() < 0.5 else None, "as": rng.choice(["str", "path"])})
            plans.append({"ops": ops, "stray": rng.random() < 0.2})
        out.append({"config": {"model": d, "read": kw, "solved": g % 3 > 0}, "plans": plans})
    return out


def prepare(config, ctx):
    m = models.make(config["model"], **config["read"])
    m.build()
    ctx.world.watch(m)
    if config["solved"]:
        m.solve()
    root = pathlib.Path(ctx.scratch)
    with ctx.world.disk.armed(root) as u:
        m.to_csv(root / "count")
    with ctx.world.disk.armed(root) as v:
        m.backend.to_lp(root / "count.lp")
    return {"m": m, "use": {"csv": u.mutations, "lp": v.mutations}}


def execute(base, plan, ctx):
    w, m = ctx.world, base["m"]
    root = pathlib.Path(ctx.scratch) / "disk"
    root.mkdir()
    if plan["stray"]:
        (root / "out").mkdir()
        (root / "out" / "mine.csv").write_text("mine")
    ctx.evaluations = 0
    for op in plan["ops"]:
        if op["op"] == "solve":
            o = c10.solve(w, m, op)
            ctx.log("solve", [x["kind"] for x in op["outcomes"]], o.name)
        elif op["op"] == "update":
            o = c10.update(m, op)
            ctx.log("update", op["what"], o and o.name)
        elif op["op"] == "verbose":
            o = lib.attempt(m.backend.verbose_strings)
            ctx.log("verbose", o.name)
        elif op["op"] == "objective":
            # the same objective again: the problem is written as it is now
            o = lib.attempt(m.backend.set_objective, m.backend.objective)
            ctx.log("objective", o.name)
        else:
            export(base, op, ctx, m, root)


def export(base, op, ctx, m, root):
    ctx.evaluations += 1
    disk = ctx.world.disk
    path = root / op["path"]
    target = str(path) if op["as"] == "str" else path
    f = dict(op["fault"] or {})
    existing = path.exists()
    facts = {"op": op["op"], "fault": f.get("action"), "existing": existing, "overwrite": op.get("overwrite")}
    before = lib.State(m)
    content = tree(root)
    faults, quota = armed(f, base["use"][op["op"]])

    def call():
        if op["op"] == "csv":
            m.to_csv(target, dropna=op["dropna"], allow_overwrite=op["overwrite"])
        else:
            m.backend.to_lp(target)

    def attempted():
        with disk.armed(root, faults, quota) as use:
            o = lib.attempt(call)
        return bool(use.fired), o.ok, type(o.error).__name__, repr(o), before.diff(lib.State(m))

    if f:
        kind, v = ctx.fork(attempted)
        if kind == "raised":
            raise core.HarnessError(f"export: {v}")
        if kind == "died":
            if f["action"] not in ("kill", "torn"):
                ctx.fail("crash", f"the process died with {v} in an export with a disk fault", **facts)
            v = True, False, "", "killed", []
    else:
        kind, v = "ok", attempted()
    fired, ok, error, text, d = v
    if d:
        ctx.fail("model-changed", f"an export that {'returned' if ok else 'raised'} changed the model: {'; '.join(d[:3])}", **facts)
    if fired:
        ctx.fault("disk:" + f["action"])
    ctx.nontrivial |= fired or existing
    ctx.log(op["op"], op["path"], f.get("action"), fired, "returned" if ok else text.split(":")[0])
    if op["op"] == "csv" and existing and not op["overwrite"]:
        if ok:
            ctx.fail("overwrote", "an export into an existing directory returned though overwriting was not allowed", **facts)
        if tree(root) != content:
            ctx.fail("overwrote", f"a refused export changed {changed(content, tree(root))}", **facts)
        return
    if ok:
        p = judge(m, op, path)
        if p:
            ctx.fail("incomplete" if fired else "wrong", f"an export that returned: {p}", **facts)
    elif not fired:
        ctx.fail("failed", f"without a fault: {text}", **facts)
    else:
        # nothing else may have been touched, and exporting again gives it all
        touched = {k for k in set(content) | set(tree(root)) if content.get(k) != tree(root).get(k)}
        if any(not within(k, op) for k in touched):
            ctx.fail("other-files", f"a failed export changed {sorted(touched)[:3]}", **facts)
        o = lib.attempt(lambda: m.to_csv(target, dropna=op["dropna"], allow_overwrite=True) if op["op"] == "csv" else m.backend.to_lp(target))
        if not o.ok:
            ctx.fail("cannot-export-again", f"after a failed export: {o!r}", **facts)
        p = judge(m, op, path)
        if p:
            ctx.fail("wrong", f"an export after a failed one: {p}", **facts)


def within(k, op):
    return k == op["path"] or k.startswith(op["path"] + "/") or op["path"].startswith(k + "/")


def tree(root):
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))}


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))[:4]


def armed(f, n):
    if not f:
        return [], None
    if f["action"] == "quota":
        return [], int(f["frac"] * 40_000)
    return [{**{k: v for k, v in f.items() if k != "frac"}, "at": int(f["frac"] * n)}], None


# -- what the files must hold ---------------------------------------------------------------------
def judge(m, op, path):
    """'' if the export at the path is complete."""
    if op["op"] == "lp":
        return lpfile.diff(path.read_text(), lib.problem_of(m))
    for group, ds in (("inputs", m.inputs), ("results", m.results)):
        for name, da in ds.data_vars.items():
            f = path / f"{group}_{name}.csv"
            if not f.exists():
                return f"{f.name} is missing"
            p = judge_csv(f, name, da, op["dropna"])
            if p:
                return f"{f.name}: {p}"
    f = path / "attrs.yaml"
    if not f.exists():
        return "attrs.yaml is missing"
    import ruamel.yaml

    got = ruamel.yaml.YAML(typ="safe").load(f.read_text(encoding="utf-8"))
    d = lib.diff_plain(flat(m.dump_all_attrs()), flat(got))
    return f"attrs.yaml: {'; '.join(d[:2])}" if d else ""


def flat(x):
    """Attributes without empty dictionaries and timings."""
    x = lib.plain(x)
    x.get("runtime", {}).pop("timings", None)
    return prune(x)


def prune(x):
    if isinstance(x, dict):
        return {k: prune(v) for k, v in x.items() if not (isinstance(v, dict) and not prune(v))}
    return x


def missing(v):
    return v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and math.isnan(v)) or (isinstance(v, np.datetime64) and np.isnat(v))


def judge_csv(f, name, da, dropna):
    with open(f, newline="", encoding="utf-8") as h:
        rows = list(csv.reader(h))
    values = np.asarray(da.values)
    if not da.dims:
        want = [] if missing(values.item()) and dropna else [values.item()]
        got = [r[0] if r else "" for r in rows[1:]]
        if len(got) != len(want):
            return f"{len(got)} values instead of {len(want)}"
        return "" if all(same(g, x) for g, x in zip(got, want)) else f"{got} instead of {want}"
    if not rows:
        return "empty"
    head, rows = rows[0], rows[1:]
    if sorted(head) != sorted(list(map(str, da.dims)) + [str(name)]):
        return f"columns {head}"
    at = [head.index(str(d)) for d in da.dims]
    v = head.index(str(name))
    want = {}
    coords = [[key(c) for c in da[d].values] for d in da.dims]
    for idx in np.ndindex(values.shape):
        x = values[idx]
        if dropna and missing(x):
            continue
        want[tuple(coords[n][i] for n, i in enumerate(idx))] = x
    times = [np.asarray(da[d].values).dtype.kind == "M" for d in da.dims]
    numbers = [np.asarray(da[d].values).dtype.kind in "fiu" for d in da.dims]
    got = {}
    for r in rows:
        if len(r) != len(head):
            return f"a row has {len(r)} cells: {r}"
        k = tuple(str(pd.Timestamp(r[a])) if t else (repr(float(r[a])) if n else r[a]) for a, t, n in zip(at, times, numbers))
        if k in got:
            return f"{k} twice"
        got[k] = r[v]
    if set(got) != set(want):
        odd = sorted(set(got) ^ set(want))
        return f"{len(got)} entries instead of {len(want)}, e.g. {odd[0]}"
    for k, x in want.items():
        if not same(got[k], x):
            return f"{k}: {got[k]!r} instead of {x!r}"
    return ""


def key(c):
    if isinstance(c, np.datetime64):
        return str(pd.Timestamp(c))
    if isinstance(c, (int, float, np.integer, np.floating)):
        return repr(float(c))
    return str(c)


def same(text, x):
    if missing(x):
        return text in ("", "nan", "NaT", "NaN")
    if isinstance(x, (bool, np.bool_)):
        return text == str(bool(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        try:
            return float(text) == float(x)
        except ValueError:
            return False
    if isinstance(x, np.datetime64):
        return pd.Timestamp(text) == pd.Timestamp(x)
    return text == str(x)
