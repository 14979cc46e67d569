"""C14: models in one process never affect each other or the caller's data."""
from __future__ import annotations

import copy
import json
import pathlib
import random
import shutil

import numpy as np
import pandas as pd
import xarray as xr

from sim import core, lib, models, transcript
from sim.checks import c10, c13

ID = "C14"
LEVEL = ("deterministic simulation: seeded interleavings of the operations of two or three models that share definitions, overrides, math, data frames and log folders, with solver and "
         "disk faults in any of them and the caller changing its own data, against each model used alone in an untouched process; the caller's objects are compared after every operation")
RULE = ("one evaluation is one operation in an interleaving (and one comparison of a model's whole transcript with that of the model used alone); nontrivial when at least two models "
        "did something after both had been loaded; distinct runs differ in order, faults and definitions")
REAL = ["calliope (all of it)", "pyomo", "pandas and xarray objects passed in by the caller", "temporary files"]
STUB = ["the solver process boundary (seeded answers)", "the disk below the output folders (seeded faults)"]

LIMIT = {"constraints": {"of_file": {"foreach": ["nodes", "techs"], "where": "flow_cap", "equations": [{"expression": "flow_cap <= 5000"}]}}}
MATH = {"mine": {"parameters": {"own": {"default": 1.5}},
                 "constraints": {"own_limit": {"foreach": ["nodes", "techs"], "where": "flow_cap", "equations": [{"expression": "flow_cap <= 1000 * own"}], "active": True}}}}


class Session(transcript.Session):
    """A session in which live objects of the caller are passed in."""

    def __init__(self, world, caller, member, scratch):
        super().__init__(world, {}, scratch, lambda: caller.read(member))
        self.caller, self.member = caller, member

    def own(self, name):
        return self.m is not None and self.m.is_built and name in self.m.backend.variables

    def do_solve(self, op):
        op = copy.deepcopy(op)
        o = op.setdefault("options", {})
        for k in o:
            o[k] = self.caller.lend(o[k])
        logs = op.get("logs")
        if logs:
            o["save_logs"] = str((self.caller.root if logs == "shared" else self.scratch) / "logs")
        return super().do_solve(op)

    def do_update(self, op):
        m = self.m
        if m is None or not m.is_built or op["param"] not in m.backend.inputs:
            return None
        new = self.caller.lend((m.backend.inputs[op["param"]].fillna(0) * op["factor"]).copy(deep=True))
        o = lib.attempt(m.backend.update_input, op["param"], new)
        return ["outcome " + transcript.text(o)] + ["row " + repr(x) for x in lib.problem_of(m).rows] + transcript.dataset("backend inputs", m.backend.inputs)

    def do_bounds(self, op):
        if not self.own("flow_out"):
            return None
        m = self.m
        new = self.caller.lend(xr.where(m.backend.variables["flow_out"].notnull(), op["max"], np.nan))
        o = lib.attempt(m.backend.update_variable_bounds, "flow_out", max=new)
        return ["outcome " + transcript.text(o)] + ["variable " + repr(x) for x in lib.problem_of(m).vars.items()]

    def do_fix(self, op):
        if not self.own("flow_out"):
            return None
        m = self.m
        where = self.caller.lend(m.backend.variables["flow_out"].notnull() & (m.inputs.techs == op["tech"]))
        o = lib.attempt(getattr(m.backend, op["how"]), "flow_out", where)
        return ["outcome " + transcript.text(o)] + ["variable " + repr(x) for x in lib.problem_of(m).vars.items()]

    def do_scribble(self, op):
        """The user changes what the model handed out."""
        m = self.m
        if m is None:
            return None
        ds = m.results if op["what"] == "results" else m.inputs
        for name, da in ds.data_vars.items():
            if da.dtype.kind == "f" and da.size > 1 and da.values.flags.writeable:
                da.values[...] = da.values * op["factor"]
        ds.attrs["note"] = "mine"
        m.inputs.attrs.setdefault("more", []).append("x")
        return transcript.dataset(op["what"], ds)

    def do_save(self, op):
        if self.m is None:
            return None
        out = self.scratch / f"out{self.n}"
        call = (lambda: self.m.to_netcdf(str(out) + ".nc")) if op.get("kind") == "nc" else (lambda: self.m.to_csv(out))
        if op.get("disk"):
            with self.world.disk.armed(self.scratch, **op["disk"]):
                o = lib.attempt(call)
            return ["outcome " + o.name] + transcript.dataset("inputs", self.m.inputs) + transcript.dataset("results", self.m.results)
        o = lib.attempt(call)
        return ["outcome " + transcript.text(o)] + (transcript.files(out) if out.is_dir() else [])


class Caller:
    """Who holds the definitions that all models are made of."""

    def __init__(self, config, root):
        self.root = pathlib.Path(root)
        self.pool = copy.deepcopy(config["pool"])
        self.frames = {name: transcript.tables({"tables": {name: t}})[name] for name, t in config["tables"].items()}
        for f in self.frames.values():
            f.index.name = None
        if config.get("attrdict"):
            from calliope.attrdict import AttrDict

            self.pool = {k: [AttrDict(x) for x in v] if isinstance(v, list) else AttrDict(v) for k, v in self.pool.items()}
        self.disk = self.root / "definition"
        if any(m.get("disk") for m in config["members"]):
            d = copy.deepcopy(config["pool"]["definitions"][0])
            self.text = config.get("csv")
            if self.text:
                d["data_tables"]["demand"]["table"] = "table.csv"
            if d["config"]["init"]["mode"] != "operate":
                d["config"]["init"].setdefault("math_paths", {})["of_file"] = str(self.root / "of_file.yaml")
                (self.root / "of_file.yaml").write_text(c13.dump(LIMIT))
            self.path = c13.to_files(d, self.disk, random.Random(1))
            if self.text:
                (self.disk / "table.csv").write_text(self.text)
        self.lent = []
        self.note()

    def edit(self, op):
        """The user changes the definition on disk."""
        if op["what"] == "table" and self.text:
            self.text = "\n".join(line if not i else ",".join(c if not j or not c else str(round(float(c) * op["factor"], 3)) for j, c in enumerate(line.split(","))) for i, line in enumerate(self.text.splitlines())) + "\n"
            (self.disk / "table.csv").write_text(self.text)
        elif op["what"] == "math" and (self.disk / "math_of_file.yaml").exists():
            (self.disk / "math_of_file.yaml").write_text(c13.dump(LIMIT).replace("5000", str(round(4000 * op["factor"]))))
        elif op["what"] == "techs":
            f = next(f for f in (self.disk / "techs.yaml", self.disk / "model.yaml") if f.exists())
            d = json.loads(f.read_text().replace(".nan", "NaN").replace(".inf", "Infinity"))
            d["techs"]["sup0"]["flow_out_eff"] = round(op["factor"] / 2, 3)
            f.write_text(c13.dump(d))

    def lend(self, x):
        self.lent.append((x, strict(x)))
        return x

    def note(self):
        self.seen = strict(self.pool), strict(self.frames)
        self.lent = [(x, strict(x)) for x, _ in self.lent]

    def changed(self):
        for name, old, new in zip(("dictionaries", "data frames"), self.seen, (strict(self.pool), strict(self.frames))):
            d = lib_diff(old, new)
            if d:
                return f"{name}: {d}"
        for x, old in self.lent:
            d = lib_diff(old, strict(x))
            if d:
                return f"{type(x).__name__} passed in: {d}"
        return ""

    def read(self, member):
        import calliope

        p = self.pool
        kw = dict(member["kw"])
        if "override" in member:
            kw["override_dict"] = p["overrides"][member["override"]]
        if member.get("math"):
            kw["math_dict"] = p["math"]
        if member.get("disk"):
            return calliope.read_yaml(self.path, data_table_dfs=None if self.text else self.frames or None, **kw)
        return calliope.read_dict(p["definitions"][member["definition"]], data_table_dfs=self.frames or None, **kw)

    def scramble(self, seed):
        """Change everything that was passed in."""
        rng = random.Random(seed)

        def walk(x):
            if isinstance(x, dict):
                for k in list(x):
                    x[k] = walk(x[k])
                x["scrambled"] = 1
            elif isinstance(x, list):
                for i in range(len(x)):
                    x[i] = walk(x[i])
                if rng.random() < 0.7:
                    x.append("scrambled")
                elif x:
                    x.pop()
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                return x + 17
            elif isinstance(x, str):
                return x + "?"
            return x

        walk(self.pool)
        for f in self.frames.values():
            f.iloc[:, :] = -3.0
            f.columns = [f"{c}?" for c in f.columns]
        for x, _ in self.lent:
            if isinstance(x, (dict, list)):
                walk(x)
            elif isinstance(x, xr.DataArray):
                if x.dtype.kind == "b":
                    x.values[...] = ~x.values
                elif x.dtype.kind == "f":
                    x.values[...] = -5.0
                x.attrs["scrambled"] = 1
        self.note()


def strict(x):
    """A copy that tells apart whatever a caller can tell apart."""
    if isinstance(x, dict):
        return [type(x).__name__, [[k, strict(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [strict(v) for v in x]]
    if isinstance(x, pd.DataFrame):
        return ["frame", [lib.norm(v) for v in x.to_numpy().ravel()], [repr(v) for v in x.index], [repr(v) for v in x.columns], [str(n) for n in x.index.names],
                [str(n) for n in x.columns.names], [str(t) for t in x.dtypes]]
    if isinstance(x, xr.DataArray):
        return ["array", list(x.dims), str(x.dtype), [lib.norm(v) for v in x.values.ravel()], sorted(map(str, x.coords)), str(x.name), strict(dict(x.attrs)),
                [[str(c), str(v.dtype), [lib.norm(i) for i in np.asarray(v.values).ravel()]] for c, v in x.coords.items()]]
    return [type(x).__name__, lib.norm(x) if isinstance(x, float) else x]


def lib_diff(a, b, path=""):
    if a == b:
        return ""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = lib_diff(x, y, f"{path}/{x[0] if isinstance(x, list) and x and isinstance(x[0], str) else i}")
            if d:
                return d
    return f"{path} {str(a)[:150]} became {str(b)[:150]}"


def groups(seed, tier):
    n_groups, n_plans = (8, 3) if tier == "quick" else (48, 40)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = c10.definition(rng, [0, 1, 2, 0, 6, 2, 1, 0][g % 8])
        kw.pop("math_dict", None)
        over0 = kw.pop("override_dict", {"config.init.name": "first"})
        d["config"]["init"]["extra_math"] = [x for x in d["config"]["init"].get("extra_math", []) if x != "mine"]
        c13.extend(d, rng)
        tables = c13.series_to_table(d, rng) if g % 2 == 0 else {}
        if tables and rng.random() < 0.8:
            d["data_tables"]["demand"]["rename_dims"] = {"time": "timesteps", "where": "nodes"}
            if rng.random() < 0.5:
                d["data_tables"]["demand"].pop("rename_dims")
        mode = d["config"]["init"]["mode"]
        other = models.system(rng, mode=rng.choice(["base", "operate"]), steps=2, nodes=1)
        pool = {"definitions": [d, other], "overrides": [over0, {"techs": {"sup0": {"color": "#00ff00"}}, "config.init.name": "second"}], "math": copy.deepcopy(MATH)}
        scenario = rng.choice([None, "s_all", "s_some"])
        members = [{"definition": 0, "kw": {**kw, "scenario": scenario}, "override": 0, "math": mode != "operate"},
                   {"definition": 0, "kw": {**kw, **rng.choice([{"scenario": scenario}, {}]), "name": "another"}, "override": rng.choice([0, 1]), "math": rng.random() < 0.5}]
        if rng.random() < 0.5:
            members.append({"definition": 1, "kw": {}})
        if mode != "operate":
            for m in members:
                if m.get("math"):
                    m["kw"]["extra_math"] = d["config"]["init"]["extra_math"] + ["mine"]
        for m in members:
            if m.get("math") and "extra_math" not in m["kw"]:
                m.pop("math")
        more = core.rng_for(ID, seed, tier, g, "more")
        attrdict = g % 2 == 1
        if attrdict or more.random() < 0.3:
            pool["overrides"][0] = {**pool["overrides"][0], "overrides": {"own_override": {"techs": {"sup1": {"color": "#123456"}}, "config": {"solve": {"zero_threshold": 1e-8}}}},
                                    "scenarios": {"s_own": ["own_override", "s_some"]}}
            for m in members:
                if m.get("override") == 0 and more.random() < 0.7:
                    m["kw"]["scenario"] = "s_own"
        if g % 8 in (0, 1, 3, 5, 6):
            for m in members[:2]:
                if more.random() < 0.8 or m is members[0]:
                    m["disk"] = True
                    if mode != "operate":
                        m["kw"]["extra_math"] = m["kw"].get("extra_math", d["config"]["init"]["extra_math"]) + ["of_file"]
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            queues = [[{"who": w, "op": "read"}] + [{"who": w, **operation(rng, mode)} for _ in range(rng.randint(2, 4))] for w in range(len(members))]
            for q in queues:
                q.insert(1 if rng.random() < 0.7 else 2, {"who": q[0]["who"], "op": "build"})
            ops = []
            while any(queues):
                q = rng.choice([q for q in queues if q])
                ops.append(q.pop(0))
            loaded = max(i for i, o in enumerate(ops) if o["op"] == "read")
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.insert(rng.randint(loaded + 1, len(ops)), {"who": None, "op": "scramble", "seed": rng.randrange(1000)})
            for i in reversed([i for i, o in enumerate(ops) if o.get("logs")]):
                if rng.random() < 0.6:
                    ops.insert(rng.randint(i + 1, min(i + 3, len(ops))), {"who": None, "op": "tidy"})
            if any(m.get("disk") for m in members):
                for _ in range(rng.choice([1, 1, 2])):
                    reads = [i for i, o in enumerate(ops) if o["op"] == "read"]
                    second = max(i for i in reads if members[ops[i]["who"]].get("disk"))
                    ops.insert(rng.randint(1, second) if rng.random() < 0.7 and second else rng.randint(1, len(ops)),
                               {"who": None, "op": "edit", "what": rng.choice(["table", "math", "math", "techs"]), "factor": rng.choice([0.5, 0.8, 0.9, 1.1])})
            plans.append({"ops": ops})
        csv = tables["demand_table"]["csv"] if tables else None
        out.append({"config": {"pool": pool, "tables": tables, "members": members, "attrdict": attrdict, "csv": csv}, "plans": plans})
    return out


def operation(rng, mode):
    k = rng.random()
    if k < 0.4:
        kinds = ["tag", "tag", "tag", "infeasible", "limit_nosol", "rc", "interrupt", "nofile"]
        opt = rng.choice([{}, {}, {"solver_options": {"threads": 2}}, {"shadow_prices": ["system_balance"]}])
        if mode == "spores" and rng.random() < 0.5:
            opt = {"spores": {"number": rng.choice([1, 2])}}
        return {"op": "solve", "outcomes": [{"kind": rng.choice(kinds if rng.random() < 0.4 else ["tag"]), "seed": rng.randrange(10**6)} for _ in range(5)], "options": opt,
                "logs": rng.choice([None, None, "shared", "own"])}
    if k < 0.5:
        return {"op": "build"}
    if k < 0.62:
        return {"op": "update", "param": rng.choice(c10.UPDATES), "factor": round(rng.uniform(0.7, 1.1), 3)}
    if k < 0.7:
        return {"op": "bounds", "max": rng.choice([50.0, 1e4])}
    if k < 0.78:
        return {"op": "fix", "how": rng.choice(["fix_variable", "unfix_variable"]), "tech": rng.choice(["sup0", "sup1"])}
    if k < 0.86:
        return {"op": "scribble", "what": rng.choice(["results", "inputs"]), "factor": rng.choice([0.5, 0.99])}
    disk = None if rng.random() < 0.4 else {"faults": [{"at": rng.randrange(40), "action": rng.choice(["fail", "short", "full"]), "errno": rng.choice(["EIO", "ENOSPC"])}]}
    return {"op": "save", "kind": rng.choice(["nc", "csv"]), "disk": disk}


def prepare(config, ctx):
    return {"config": config}


def run(config, ops, world, root, fail=None):
    """Lines of every member."""
    root = pathlib.Path(root)
    root.mkdir()
    caller = Caller(config, root)
    sessions = {}
    for i, member in enumerate(config["members"]):
        (root / f"m{i}").mkdir()
        sessions[i] = Session(world, caller, member, root / f"m{i}")
    broken = []
    for op in ops:
        if op["who"] is None:
            if op["op"] == "scramble":
                caller.scramble(op["seed"])
            elif op["op"] == "edit":
                caller.edit(op)
            else:
                shutil.rmtree(root / "logs", ignore_errors=True)
                for i in sessions:
                    shutil.rmtree(root / f"m{i}" / "logs", ignore_errors=True)
            continue
        s = sessions[op["who"]]
        np.random.seed(1000 * op["who"] + s.n + 5)
        random.seed(1)
        s.step({k: v for k, v in op.items() if k != "who"})
        d = caller.changed()
        if d:
            broken.append((op["op"], f"{op['op']} of model {op['who']} changed the caller's {d}"))
            caller.note()
    return {i: [x.replace(str(root), "<root>") for x in s.lines] for i, s in sessions.items()}, broken


def execute(base, plan, ctx):
    config, ops = base["config"], plan["ops"]
    kind, value = ctx.fork(lambda: run(config, ops, ctx.world, pathlib.Path(ctx.scratch) / "together"))
    if kind != "ok":
        raise core.HarnessError(f"interleaving: {value}")
    together, broken = value
    for op, d in broken[:1]:
        ctx.fail("callers-data", d, op=op)
    loaded = [i for i, o in enumerate(ops) if o["op"] == "read"]
    after = {o["who"] for o in ops[(max(loaded) if loaded else 0) + 1:] if o["who"] is not None}
    ctx.nontrivial = len(after) > 1
    for o in ops:
        if o.get("disk"):
            ctx.fault("disk:" + o["disk"]["faults"][0]["action"])
        for out in o.get("outcomes", []):
            ctx.fault("solver:" + out["kind"])
        if o["who"] is None:
            ctx.fault("caller:" + o["op"])
    ctx.evaluations += len(ops)
    for i in range(len(config["members"])):
        # What is on the disk is the same for a model that is used alone
        mine = [o for o in ops if o["who"] == i or o["op"] == "edit"]
        if not any(o["who"] == i for o in mine):
            continue
        kind, value = ctx.fork(lambda: run(config, mine, ctx.world, pathlib.Path(ctx.scratch) / f"alone{i}"))
        if kind != "ok":
            raise core.HarnessError(f"alone: {value}")
        ctx.probe("alone")
        d = c13.first_difference(value[0][i], together[i])
        if d:
            ctx.fail("not-as-alone", f"model {i}: {d}", model=i)
        ctx.log(i, len(together[i]), core.digest(together[i]))
