"""C17: looking at or saving a model never changes it."""
from __future__ import annotations

import pathlib
import random

import numpy as np

from sim import canon, core, interrupt, lib, models, transcript
from sim.checks import c10, c13

ID = "C17"
LEVEL = ("deterministic simulation: seeded histories of builds, solves with seeded solver endings, input, bound and objective changes, fixing and restarts, run twice in equal processes: "
         "as they are, and with read-only calls inserted at seeded points, which are themselves interrupted, starved of memory or hit by seeded disk errors; everything observable is "
         "compared before and after each inserted call, and the whole rest of the history with that of the undisturbed twin")
RULE = ("one evaluation is one inserted read-only call; nontrivial when the model was built or solved then and something was done to it afterwards; distinct runs differ in history, calls and faults")
REAL = ["calliope (all of it)", "pyomo", "NetCDF, CSV, LP and documentation writing"]
STUB = ["the solver process boundary (seeded answers)", "the disk below the output folder (seeded faults)"]
COMPONENTS = ["parameters", "lookups", "variables", "global_expressions", "constraints", "piecewise_constraints", "objectives", "postprocessed"]
LOOKS = ["info", "dump", "arrays", "netcdf", "netcdf", "csv", "lp", "lp", "verbose", "verbose", "get", "get", "get", "bounds", "bounds", "evaluate", "evaluate", "shadow", "properties", "unknown", "load", "docs"]


class Session(transcript.Session):
    """A session with read-only calls among the operations."""

    def __init__(self, world, job, scratch):
        super().__init__(world, job, scratch)
        self.broken, self.looked, self.fired, self.folders = [], [], {}, 0

    def look(self, op):
        m = self.m
        if m is None:
            return
        self.folders += 1
        out = self.scratch / f"look{self.folders}"
        out.mkdir()
        before, n0 = everything(m), len(self.world.events)
        call = calls(m, op, out)
        if call is None:
            return
        self.looked.append((op["what"], m.is_built, m.is_solved))
        f = op.get("fault") or {}
        # outcomes meant for the next solve stay in the queue
        if f.get("kind") == "disk":
            with self.world.disk.armed(out, [{"at": f["at"], "action": f["action"], "errno": f["errno"], "arg": 1}]) as use:
                o = lib.attempt(call)
            fired = bool(use.fired)
        elif f.get("kind") == "call":
            with interrupt.at(f["at"], f["exc"]) as use:
                o = lib.attempt(call)
            fired = use.where is not None
        else:
            o, fired = lib.attempt(call), False
        if fired:
            k = f"{f['kind']}:{f.get('action', f.get('exc'))}"
            self.fired[k] = self.fired.get(k, 0) + 1
        where = f" ({f['kind']} fault {getattr(use, 'where', '') or f.get('action')})" if fired else ""
        d = difference(before, everything(m))
        if d:
            self.broken.append((op["what"], o.name, bool(fired), f"{op['what']} {op.get('name', '')}{where}, which {o}, changed the model: {d}"))
        if len(self.world.events) != n0:
            self.broken.append((op["what"], o.name, bool(fired), f"{op['what']} solved something"))
        if not o.ok and not fired:
            self.fired['refused'] = self.fired.get('refused', 0) + 1

    def built(self, name=None):
        return self.m is not None and self.m.is_built and (name is None or name in self.m.backend.variables)

    def do_bounds(self, op):
        if not self.built("flow_out"):
            return None
        o = lib.attempt(self.m.backend.update_variable_bounds, "flow_out", max=op["max"])
        return ["outcome " + transcript.text(o)] + ["variable " + repr(x) for x in lib.problem_of(self.m).vars.items()]

    def do_fix(self, op):
        if not self.built("flow_out"):
            return None
        o = lib.attempt(getattr(self.m.backend, op["how"]), "flow_out")
        return ["outcome " + transcript.text(o)] + ["variable " + repr(x) for x in lib.problem_of(self.m).vars.items()]

    def do_names(self, op):
        """The LP file of the problem with verbose names."""
        if not self.built():
            return None
        f = self.scratch / f"n{self.n}.lp"
        o = lib.attempt(lambda: (self.m.backend.verbose_strings(), self.m.backend.to_lp(f)))
        return ["outcome " + transcript.text(o)] + (["lp " + x for x in f.read_text().splitlines()] if o.ok else [])

    def do_docs(self, op):
        if self.m is None:
            return None
        o = lib.attempt(documentation, self.m, op["include"], op["format"])
        return ["outcome " + transcript.text(o)] + (["docs " + x for x in o.value.splitlines()] if o.ok else [])


def documentation(m, include, form):
    from calliope.postprocess.math_documentation import MathDocumentation

    return MathDocumentation(m, include=include).write(format=form)


def calls(m, op, out):
    """The read-only call, or None if the model is not so far."""
    what, pick = op["what"], random.Random(op["pick"])
    if what == "info":
        return lambda: (m.info(), m.name, m.is_built, m.is_solved, str(m.inputs), str(m.results))
    if what == "dump":
        return lambda: (scribble(m.dump_all_attrs()), m.all_attrs.model_dump(), scribble(m.config.model_dump()), scribble(m.definition.model_dump()), m.math.build.model_dump_json())
    if what == "arrays":
        return lambda: [scribble_array(da.to_series().dropna()) for ds in (m.inputs, m.results) for da in ds.data_vars.values() if da.ndim]
    if what == "netcdf":
        return lambda: m.to_netcdf(out / "m.nc")
    if what == "csv":
        return lambda: m.to_csv(out / "csv", dropna=op["flag"])
    if what == "docs":
        return lambda: documentation(m, "valid" if op["flag"] else "all", pick.choice(["md", "tex", "rst"]))
    if not m.is_built:
        return None
    b = m.backend
    if what == "lp":
        return lambda: b.to_lp(out / "m.lp")
    if what == "verbose":
        return b.verbose_strings
    if what == "properties":
        return lambda: ([list(getattr(b, k)) for k in COMPONENTS], b.has_integer_or_binary_variables, b.math, b.objective, [c.name for c in b.inputs.data_vars.values()])
    if what == "shadow":
        s = b.shadow_prices
        names = list(s.available_constraints)
        op["name"] = pick.choice(names)
        if s.is_active and not b.has_integer_or_binary_variables and m.is_solved and m.results.data_vars and op["name"] in set(s.available_constraints):
            return lambda: s.get(op["name"])
        return lambda: (s.is_active, s.tracked, list(s.available_constraints))
    if what == "load":
        return lambda: b.load_results(op["flag"])
    if what == "unknown":
        f = pick.choice([b.get_parameter, b.get_variable, b.get_constraint, b.get_global_expression, b.get_objective, b.get_lookup, b.get_variable_bounds])
        return lambda: f("nonsense")
    kind = {"bounds": "variables"}.get(what) or pick.choice(COMPONENTS[:6] + ["objectives"] if what == "get" else ["constraints", "global_expressions", "objectives"])
    names = sorted(map(str, getattr(b, kind)))
    if not names:
        return None
    name = op["name"] = pick.choice(names)
    f = b.get_variable_bounds if what == "bounds" else getattr(b, "get_" + kind.removesuffix("s"))
    if what == "bounds":
        return lambda: scribble_array(f(name))
    kw = {}
    if kind not in ("lookups", "piecewise_constraints"):
        kw["as_backend_objs"] = what == "get" and op["flag"]
    if kind in ("constraints", "global_expressions", "objectives"):
        kw["eval_body"] = what == "evaluate"
    keep = kw.get("as_backend_objs", True)
    return lambda: f(name, **kw) if keep else scribble_array(f(name, **kw))


def scribble(d):
    """Whoever gets a copy may change it."""
    if isinstance(d, dict):
        for v in d.values():
            scribble(v)
        d["mine"] = 1
    elif isinstance(d, list):
        for v in d:
            scribble(v)
        d.append("mine")
    elif isinstance(d, set):
        d.add("mine")
    return d


def scribble_array(x):
    import xarray as xr

    if isinstance(x, xr.Dataset):
        for v in x.data_vars.values():
            scribble_array(v)
        x.attrs["mine"] = 1
    elif isinstance(x, xr.DataArray):
        x.attrs["mine"] = 1
        if x.dtype.kind == "f" and x.values.flags.writeable:
            x.values[...] = -12345.0
        elif x.dtype.kind == "O" and x.values.flags.writeable:
            x.values[...] = None
    else:
        x.iloc[:] = x.iloc[::-1].to_numpy()
    return x


def everything(m):
    """All that can be seen of a model, without asking the model to do it."""
    s = {"status": [m.is_built, m.is_solved], "inputs": m.inputs.copy(deep=True), "results": m.results.copy(deep=True), "attrs": lib.plain(m.dump_all_attrs())}
    if not m.is_built:
        return s
    b = m.backend
    p = lib.problem_of(m)
    s["backend inputs"] = b.inputs.copy(deep=True)
    s["problem"] = p
    comp = {}
    for kind in COMPONENTS:
        for name, da in getattr(b, kind).items():
            attrs = {k: v for k, v in da.attrs.items() if k != "coords_in_name"}
            cs = [[str(k), str(c.dtype), [lib.norm(v) for v in np.asarray(c.values).ravel()]] for k, c in sorted(da.coords.items())]
            objs = [val(o) for o in np.asarray(da.values).ravel()]
            comp[f"{kind} {name}"] = [list(map(str, da.dims)), list(da.shape), lib.plain(attrs), cs, objs]
    s["components"] = comp
    s["objective"] = b.objective
    s["shadow prices"] = [b.shadow_prices.is_active, sorted(b.shadow_prices.tracked)]
    return s


def val(o):
    """The value an object holds, not its identity or name."""
    if o is None or isinstance(o, (int, float, str, bool, np.generic)):
        return lib.norm(o)
    if hasattr(o, "stale"):
        return [lib.norm(o.value), lib.norm(o.lb) if not hasattr(o.lb, "value") else "", bool(o.fixed), bool(o.stale)]
    if hasattr(o, "body"):
        return [bool(o.active)]
    if hasattr(o, "sense"):
        return [bool(o.active), str(o.sense)]
    if type(o).__name__ == "ObjParameter":
        return [lib.norm(o.value)]
    return type(o).__name__


def difference(a, b):
    if a["status"] != b["status"]:
        return f"built/solved {a['status']} -> {b['status']}"
    for k in ("inputs", "results", "backend inputs"):
        if k in a:
            d = lib.compare_datasets(a[k], b[k], k + ": ", exact=True)
            if d:
                return d[0]
            for n in a[k].variables:
                if a[k][n].dtype != b[k][n].dtype or a[k][n].dims != b[k][n].dims:
                    return f"{k}: {n} is {b[k][n].dtype} over {b[k][n].dims}, was {a[k][n].dtype} over {a[k][n].dims}"
    d = lib.diff_plain(a["attrs"], b["attrs"])
    if d:
        return "attributes: " + d[0]
    if "problem" not in a:
        return ""
    d = canon.diff(a["problem"], b["problem"])
    if d:
        return f"problem: {d[0]}"
    for k in sorted(set(a["components"]) | set(b["components"])):
        x, y = a["components"].get(k), b["components"].get(k)
        if x is None or y is None:
            return f"component {k} {'appeared' if x is None else 'is gone'}"
        for what, u, v in zip(("dimensions", "shape", "attributes", "coordinates", "values"), x, y):
            if u != v:
                if isinstance(u, list) and len(u) == len(v):
                    u, v = next((i, j) for i, j in zip(u, v) if i != j)
                return f"component {k}, {what}: {str(u)[:120]} -> {str(v)[:120]}"
    for k in ("objective", "shadow prices"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} -> {b[k]}"
    return ""


def groups(seed, tier):
    n_groups, n_plans = (8, 5) if tier == "quick" else (48, 50)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        d, kw = c10.definition(rng, [0, 1, 2, 3, 0, 1, 6, 4][g % 8])
        mode = d["config"]["init"]["mode"]
        if g % 4 == 0:
            models.finer(d, rng.choice(["20s", "90s", "250ms"]))
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = [{"op": "read"}]
            if rng.random() < 0.9:
                ops.append({"op": "build"})
            ops += [operation(rng, mode) for _ in range(rng.randint(2, 4))]
            full = []
            for o in ops:
                full.append(o)
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    full.append(look(rng))
            # what is done at the end shows what the calls have left behind
            full.append(rng.choice([{"op": "names"}, {"op": "save"}, operation(rng, mode), {"op": "docs", "include": rng.choice(["all", "valid"]), "format": "md"}]))
            plans.append({"ops": full})
        out.append({"config": {"model": d, "read": kw}, "plans": plans})
    return out


def look(rng):
    op = {"op": "look", "what": rng.choice(LOOKS), "pick": rng.randrange(10**6), "flag": rng.random() < 0.5}
    k = rng.random()
    if op["what"] in ("netcdf", "csv", "lp") and k < 0.35:
        op["fault"] = {"kind": "disk", "at": rng.randrange(30 if op["what"] == "netcdf" else 12), "action": rng.choice(["fail", "short", "full"]), "errno": rng.choice(["EIO", "ENOSPC"])}
    elif k < 0.5:
        op["fault"] = {"kind": "call", "at": rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 80]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    return op


def operation(rng, mode):
    k = rng.random()
    if k < 0.45:
        kinds = ["tag", "tag", "infeasible", "limit_nosol", "limit_sol", "rc", "interrupt", "nofile"]
        opt = rng.choice([{}, {}, {"shadow_prices": ["system_balance"]}])
        if mode == "spores" and rng.random() < 0.5:
            opt = {"spores": {"number": rng.choice([1, 2])}}
        return {"op": "solve", "outcomes": [{"kind": rng.choice(kinds if rng.random() < 0.3 else ["tag"]), "seed": rng.randrange(10**6)} for _ in range(5)], "options": opt}
    if k < 0.52:
        return {"op": "build"}
    if k < 0.7:
        return {"op": "update", "param": rng.choice(c10.UPDATES), "factor": round(rng.uniform(0.7, 1.1), 3)}
    if k < 0.77:
        return {"op": "bounds", "max": rng.choice([50.0, 1e4])}
    if k < 0.84:
        return {"op": "fix", "how": rng.choice(["fix_variable", "unfix_variable"])}
    if k < 0.92:
        return {"op": "reload"}
    return {"op": "save"}


def prepare(config, ctx):
    return {"config": config}


def run(world, config, ops, root):
    root.mkdir()
    np.random.seed(11)
    random.seed(11)
    s = Session(world, {"model": config["model"], "read": config["read"]}, root)
    for op in ops:
        if op["op"] == "look":
            s.look(dict(op))
        else:
            s.step(op)
    return [x.replace(str(root), "<root>") for x in s.lines], s.broken, s.looked, s.fired


def execute(base, plan, ctx):
    config, ops = base["config"], plan["ops"]
    got = []
    for name, these in (("with", ops), ("without", [o for o in ops if o["op"] != "look"])):
        kind, v = ctx.fork(lambda: run(ctx.world, config, these, pathlib.Path(ctx.scratch) / name))
        if kind != "ok":
            raise core.HarnessError(f"{name}: {v}")
        got.append(v)
    (lines, broken, looked, fired), (plain, *_) = got
    ctx.evaluations += len(looked)
    ctx.nontrivial = any(b for _, b, _ in looked)
    for what, b, s in looked:
        ctx.probe("look " + what)
    for k, n in fired.items():
        for _ in range(n):
            ctx.fault(k)
    for o in ops:
        for x in o.get("outcomes", [])[:1]:
            ctx.fault("solver:" + x["kind"])
    ctx.log(len(lines), core.digest(lines), looked)
    for what, outcome, f, text in broken[:1]:
        ctx.fail("changes", text, look=what, outcome=outcome, fault=f)
    d = c13.first_difference(plain, lines)
    if d:
        ctx.fail("later", f"after {[w for w, *_ in looked]}: {d}", looks=sorted({w for w, *_ in looked}))
