"""C08: updating a built problem equals building it anew with the new inputs."""
from __future__ import annotations

import itertools
import math

import numpy as np
import xarray as xr

from sim import canon, core, interrupt, lib, models, solver

ID = "C08"
LEVEL = ("deterministic simulation: seeded histories of input updates in every documented form, bound updates, objective changes, solves and failed or interrupted "
         "operations; the problem held afterwards is compared with that of a model built from inputs to which an independent statement of the update rule was applied")
RULE = ("one evaluation is one update, bound or objective change; a run is nontrivial if at least one update changed the problem; distinct runs differ in "
        "the recorded history of updates")
REAL = ["calliope (all of it)", "pyomo", "cbc and glpsol for the optima and for comparing problems that differ in form"]
STUB = ["the solver process boundary (seeded endings)", "the moment of an interruption (raised at the n-th call of a calliope function)"]

PARAMS = ["cost_flow_out", "cost_flow_cap", "flow_out_eff", "flow_in_eff", "flow_cap_max", "flow_cap_min", "storage_initial", "storage_loss", "source_use_max",
          "sink_use_equals", "must_run_level", "must_run_level", "cost_source_use", "fee", "fee", "storage_cap_max", "cost_storage_cap", "source_use_equals",
          "timestep_weights", "objective_cost_weights", "piece_y"]
FULL_PARAMS = ["cost_interest_rate", "cost_interest_rate", "lifetime", "cost_om_annual", "flow_out_min_relative", "flow_ramping", "cost_flow_cap", "sink_use_max",
               "source_use_max", "cost_export", "cost_depreciation_rate", "sink_use_equals", "storage_discharge_depth"]
LOOKUPS = ["cyclic_storage", "outage"]
NEW_DIMS = {"must_run_level": ["techs"], "fee": ["techs"], "cost_source_use": ["techs", "costs"], "flow_cap_min": ["nodes", "techs"], "source_use_equals": ["techs"],
            "cost_om_annual": ["techs", "costs"], "flow_out_min_relative": ["techs"], "flow_ramping": ["techs"], "sink_use_max": ["techs", "timesteps"],
            "cost_depreciation_rate": ["techs", "costs"], "outage": ["techs", "timesteps"], "storage_discharge_depth": ["techs"], "flow_in_eff": ["techs"],
            "cost_export": ["techs", "costs"]}
RANGE = {"flow_out_eff": (0.3, 1), "flow_in_eff": (0.3, 1), "storage_initial": (0.05, 0.95), "storage_loss": (0, 0.2), "must_run_level": (0, 6), "fee": (0, 4),
         "cost_interest_rate": (0, 0.2), "flow_out_min_relative": (0, 0.5), "flow_ramping": (0.1, 1), "cost_depreciation_rate": (0.05, 1),
         "storage_discharge_depth": (0, 0.5), "lifetime": (5, 30)}
FORMS = ["scale", "scalar", "partial", "lower", "cut", "extra", "one", "shuffled", "same"]
SPECIAL = {"cost_interest_rate": [0.0], "source_use_max": [math.inf], "flow_cap_max": [math.inf, 0.0], "must_run_level": [3.0, 0.0], "fee": [1.0, 2.0],
           "sink_use_max": [math.inf], "storage_cap_max": [math.inf]}
BOUNDED = ["flow_out", "flow_in", "storage", "source_use", "link_flow_cap", "fee_use"]
BAD = ["rc", "infeasible", "limit_nosol", "interrupt", "nofile"]


def groups(seed, tier):
    n_groups, n_plans = (8, 9) if tier == "quick" else (64, 60)
    out = []
    for g in range(n_groups):
        rng = core.rng_for(ID, seed, tier, g)
        full = g % 8 == 6
        d = models.system(rng, mode="base", steps=rng.choice([2, 3]), nodes=rng.choice([2, 3]), tiny=not full, classes=["monetary", "co2"] if g % 4 == 1 else None, cyclic=rng.random() < 0.5)
        if g % 2:
            d["nodes"] = dict(sorted(d["nodes"].items(), key=lambda kv: core.rng_for(ID, seed, g, kv[0]).random()))
        idx = d["techs"]["dem"]["sink_use_equals"]["index"]
        init = d["config"]["init"]
        init["math_paths"] = {**init.get("math_paths", {}), "extra": models.EXTRA, "more": models.MORE}
        init["extra_math"] = ["extra", "more"]
        if rng.random() < 0.5:
            d["techs"]["sup1"]["outage"] = models.ts([rng.random() < 0.4 for _ in idx], idx)
        if g % 4 == 2 and "sto" in d["techs"]:
            d["techs"]["sto"].pop("cyclic_storage", None)
        if rng.random() < 0.5:
            d["techs"]["sup0"]["must_run_level"] = models.ts([round(rng.uniform(0, 6), 2) for _ in idx], idx)
        if rng.random() < 0.5:
            d["techs"]["sup0"]["fee"] = round(rng.uniform(0, 3), 2)
        if g % 8 == 3:
            d["techs"]["sup1"]["piece_x"] = {"data": [0, 20, 80], "dims": "breakpoints", "index": [0, 1, 2]}
            d["techs"]["sup1"]["piece_y"] = {"data": [0, 30, 50], "dims": "breakpoints", "index": [0, 1, 2]}
        plans = []
        for p in range(n_plans):
            rng = core.rng_for(ID, seed, tier, g, p)
            ops = []
            for _ in range(rng.randint(3, 8)):
                k = rng.random()
                if k < 0.62:
                    name = rng.choice(LOOKUPS) if rng.random() < 0.2 else rng.choice(FULL_PARAMS if full and rng.random() < 0.8 else PARAMS)
                    op = {"op": "update", "name": name, "form": rng.choice(FORMS), "seed": rng.randrange(10**6), "special": rng.random() < 0.5}
                    if name in LOOKUPS and rng.random() < 0.25:
                        op["interrupt"] = round(rng.random(), 4)
                    ops.append(op)
                elif k < 0.78:
                    ops.append({"op": "bounds", "name": rng.choice(BOUNDED), "which": rng.choice(["min", "max", "both"]), "form": rng.choice(["scalar", "lower", "cut", "partial"]),
                                "seed": rng.randrange(10**6)})
                elif k < 0.85:
                    ops.append({"op": "objective", "name": rng.choice(["min_flow", "min_cost_optimisation"])})
                elif k < 0.9:
                    ops.append({"op": "verbose"})
                else:
                    ops.append({"op": "solve", "outcomes": [{"kind": rng.choice(["ok", "tag", *BAD]), "seed": rng.randrange(10**6)}]})
            plans.append({"ops": ops})
        out.append({"config": {"model": d}, "plans": plans})
    return out


def prepare(config, ctx):
    m = models.make(config["model"])
    inputs = m.inputs.copy(deep=True)
    attrs = m.all_attrs.model_copy(deep=True)
    m.build()
    ctx.world.watch(m)
    return {"m": m, "inputs": inputs, "config": config, "attrs": attrs}


# -- the update rule, stated independently ---------------------------------------------------------
def entries(da):
    """{(coordinate per dimension, in alphabetical order of the dimensions): value}, missing values left out."""
    dims = sorted(map(str, da.dims))
    da = da.transpose(*dims)
    out = {}
    for pos in itertools.product(*(range(n) for n in da.shape)):
        v = da.values[pos]
        if v is None or (isinstance(v, (float, np.floating)) and math.isnan(v)):
            continue
        out[tuple(canon.fmt_coord(da[d].values[i]) for d, i in zip(dims, pos))] = v
    return dims, out


def merged(old, new, coords):
    """The array in force after updating `old` with `new`."""
    odims, o = entries(old)
    ndims, n = entries(new)
    dims = sorted(set(odims) | set(ndims))
    labels = {d: [canon.fmt_coord(c) for c in coords[d].values] for d in dims}
    values = np.full([len(labels[d]) for d in dims], np.nan, dtype=object)
    for pos in itertools.product(*(range(len(labels[d])) for d in dims)):
        key = {d: labels[d][i] for d, i in zip(dims, pos)}
        nk, ok = tuple(key[d] for d in ndims), tuple(key[d] for d in odims)
        values[pos] = n.get(nk, o.get(ok, np.nan))
    flat = [v for v in values.ravel() if not (isinstance(v, float) and math.isnan(v))]
    if flat and len(flat) == values.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
        values = values.astype(bool)
    elif all(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_)) for v in flat):
        values = values.astype(float)
    return xr.DataArray(values, dims=dims, coords={d: coords[d].values for d in dims}, attrs=dict(old.attrs))


# -- generating the values of an update, a function of the op and the inputs -----------------------
def value(op, key):
    name = op["name"]
    u = solver.unit(op["seed"], str(key))
    if name in LOOKUPS:
        return bool(u < 0.5)
    if op["special"] and name in SPECIAL and solver.unit(op["seed"], "s" + str(key)) < 0.6:
        s = SPECIAL[name]
        return float(s[int(u * len(s))])
    lo, hi = RANGE.get(name, (0.5, 30))
    return round(lo + (hi - lo) * u, 4)


def new_values(op, current, coords):
    """The argument of the update call."""
    name, form, seed = op["name"], op["form"], op["seed"]
    lookup = name in LOOKUPS
    dims = [str(d) for d in current.dims] or [d for d in NEW_DIMS.get(name, []) if d in coords]
    if form == "same" and current.dims:
        return current.copy(deep=True)
    if form == "scalar" or not dims:
        return value(op, "all") if solver.unit(seed, "plain") < 0.5 else xr.DataArray(value(op, "all"))
    if form == "scale" and current.dims and not lookup:
        hi = RANGE.get(name, (0, 1e9))[1]
        return (current * (0.5 + solver.unit(seed, "f"))).clip(max=hi)
    if form == "extra":
        more = [d for d in ("nodes", "timesteps") if d not in dims and d in coords]
        if more and name not in ("objective_cost_weights", "timestep_weights", "fee", "flow_cap_max", "flow_cap_min", "piece_y", "storage_initial", "storage_cap_max", "cost_interest_rate",
                                 "lifetime", "cost_flow_cap", "cost_storage_cap", "cost_om_annual", "cost_depreciation_rate", "cyclic_storage"):
            dims = dims + [more[int(solver.unit(seed, "d") * len(more))]]
        elif more and "nodes" in more:
            dims = dims + ["nodes"]
    if form == "lower" and len(dims) > 1:
        drop = int(solver.unit(seed, "drop") * len(dims))
        dims = dims[:drop] + dims[drop + 1:]
    labels = {d: list(coords[d].values) for d in dims}
    if form == "cut":
        cut = dims[int(solver.unit(seed, "cut") * len(dims))]
        n = len(labels[cut])
        keep = [c for c in labels[cut] if solver.unit(seed, "c" + canon.fmt_coord(c)) < 0.5] or labels[cut][:1]
        labels[cut] = keep[:max(1, n - 1)]
    shape = [len(labels[d]) for d in dims]
    arr = np.full(shape, np.nan, dtype=object)
    known = entries(current)[1] if form in ("partial", "one", "shuffled", "cut") and current.dims else {}
    sdims = sorted(map(str, current.dims))
    for pos in itertools.product(*(range(n) for n in shape)):
        key = {d: canon.fmt_coord(labels[d][i]) for d, i in zip(dims, pos)}
        if form == "one" and solver.unit(seed, "1" + str(sorted(key.items()))) < 0.8:
            continue
        if form in ("partial", "shuffled") and solver.unit(seed, "p" + str(sorted(key.items()))) < 0.4:
            continue
        if known and solver.unit(seed, "n") < 0.7 and tuple(key[d] for d in sdims) not in known:
            continue  # mostly only where there is a value already
        arr[pos] = value(op, tuple(sorted(key.items())))
    if not lookup:
        arr = arr.astype(float)
    elif not any(v is np.nan or (isinstance(v, float) and math.isnan(v)) for v in arr.ravel()):
        arr = arr.astype(bool)
    da = xr.DataArray(arr, dims=dims, coords={d: labels[d] for d in dims})
    if form == "shuffled":
        da = da.transpose(*reversed(dims))
        first = dims[0]
        da = da.isel({first: list(reversed(range(da.sizes[first])))})
    return da


def allowed(op, new, current):
    """False for updates that leave the documented ground (e.g. values where no technology can use them)."""
    if op["name"] == "piece_y" and (not current.dims or op["form"] in ("scalar", "cut", "partial", "one", "shuffled", "lower", "extra")):
        return False
    if op["name"] in ("timestep_weights", "objective_cost_weights") and op["form"] in ("extra",):
        return False
    if op["name"] == "objective_cost_weights" and not current.dims:
        return False
    return True


def bound_values(op, da, which):
    seed = op["seed"]
    lo = round(solver.unit(seed, "lo" + which) * 0.01, 6)
    base = lo if which == "min" else round(20 + 30 * solver.unit(seed, "hi"), 4)
    if op["form"] == "scalar" or not da.dims:
        return base
    dims = list(map(str, da.dims))
    if op["form"] == "lower":
        dims = [dims[int(solver.unit(seed, "dim") * len(dims))]]
    labels = {d: list(da[d].values) for d in dims}
    if op["form"] == "cut":
        cut = dims[int(solver.unit(seed, "cut") * len(dims))]
        labels[cut] = [c for c in labels[cut] if solver.unit(seed, "c" + canon.fmt_coord(c)) < 0.5] or labels[cut][:1]
    shape = [len(labels[d]) for d in dims]
    arr = np.empty(shape)
    for pos in itertools.product(*(range(n) for n in shape)):
        key = str(pos)
        arr[pos] = np.nan if op["form"] == "partial" and solver.unit(seed, "p" + key) < 0.5 else base + round(0.001 * sum(pos), 4)
    return xr.DataArray(arr, dims=dims, coords={d: labels[d] for d in dims})


def execute(base, plan, ctx):
    w, m, ref = ctx.world, base["m"], base["inputs"]
    coords = ref.coords
    ctx.evaluations, ctx.nontrivial = 0, False
    bounds = {}
    objective = str(m.backend.objective)
    names = []
    for op in plan["ops"]:
        facts = {"op": op["op"], "name": op.get("name"), "form": op.get("form")}
        if op["op"] == "update":
            name = op["name"]
            math_ = m.backend.math
            current = ref[name] if name in ref else xr.DataArray(np.nan)
            if name not in math_.parameters.root and name not in math_.lookups.root:
                continue
            new = new_values(op, current, coords)
            if not allowed(op, new, current):
                continue
            ctx.evaluations += 1
            want = merged(current, xr.DataArray(new), coords)
            given = new.copy(deep=True) if isinstance(new, xr.DataArray) else new
            n = None
            if "interrupt" in op:
                n = int(op["interrupt"] * 400)
            with interrupt.at(n, "KeyboardInterrupt" if n is not None else None) as use:
                o = lib.attempt(m.backend.update_input, name, new)
            ctx.log("update", name, op["form"], o.name, use.where)
            if use.where:
                ctx.fault("interrupt:KeyboardInterrupt")
                if applied(m, name, want) and not applied(m, name, current):
                    ctx.probe("interrupted-after-the-change")  # nothing is promised about earlier bounds then
                    return
                if o.ok:
                    ctx.fail("interruption-swallowed", f"update_input({name}) interrupted in {use.where} returned", **facts)
            elif not o.ok and not fresh(base, ref.assign({name: want}), objective).ok:
                ctx.probe("refused-like-a-new-build")
            elif not o.ok:
                ctx.fail("update-refused", f"update_input({name}, {describe(new)}) {o}", **facts)
            else:
                if name not in ref:
                    want.attrs = {"obj_type": "lookups" if name in LOOKUPS else "parameters"}
                ref[name] = want
                names.append(name)
                ctx.nontrivial = True
            check_inputs(ctx, m, name, ref, current, facts)
            if isinstance(new, xr.DataArray) and not new.identical(given):
                ctx.fail("argument-changed", f"update_input({name}) changed the array it was given", **facts)
        elif op["op"] == "bounds":
            if op["name"] not in m.backend.variables:
                continue
            ctx.evaluations += 1
            da = m.backend.variables[op["name"]]
            kw = {}
            for which in (("min", "max") if op["which"] == "both" else (op["which"],)):
                kw[which] = bound_values(op, da, which)
            o = lib.attempt(m.backend.update_variable_bounds, op["name"], **kw)
            ctx.log("bounds", op["name"], op["which"], op["form"], o.name)
            if not o.ok:
                ctx.fail("bounds-refused", f"update_variable_bounds({op['name']}, {({k: describe(v) for k, v in kw.items()})}) {o}", **facts)
            for which, v in kw.items():
                vdims, vals = entries(xr.DataArray(v))
                dims = sorted(map(str, da.dims))
                for lab in lib.da_labels(op["name"], xr.where(da.notnull(), 1.0, np.nan)):
                    key = dict(zip(dims, lab.partition("[")[2][:-1].split(",")))
                    got = vals.get(tuple(key[d] for d in vdims))
                    if got is not None:
                        bounds[(lab, which)] = float(got)
            ctx.nontrivial = True
        elif op["op"] == "objective":
            ctx.evaluations += 1
            m.backend.set_objective(op["name"])
            objective = op["name"]
            ctx.log("objective", objective)
        elif op["op"] == "verbose":
            o = lib.attempt(m.backend.verbose_strings)
            ctx.log("verbose", o.name)
            if not o.ok:
                ctx.fail("verbose-failed", f"verbose_strings {o}", **facts)
        else:
            lib.queue(w, op["outcomes"])
            n0 = len(w.events)
            o = lib.attempt(m.solve, force=True)
            w.outcomes.clear()
            ctx.sim_seconds += lib.hours(m)
            ctx.log("solve", [e.kind for e in w.events[n0:]], o.name)
    compare(base, ctx, m, ref, objective, bounds, names)


def applied(m, name, want):
    got = m.backend.inputs.get(name)
    if name in LOOKUPS and got is not None:
        want, got = want.fillna(False), got.fillna(False)
    return got is not None and bool((got.broadcast_like(want).fillna(-1) == want.broadcast_like(got).fillna(-1)).all())


def check_inputs(ctx, m, name, ref, before, facts):
    want = ref[name] if name in ref else None
    got = m.backend.inputs.get(name)
    default = m.backend.math.find(name, subset={"parameters", "lookups"}).default
    if want is not None and got is not None and not isinstance(default, float):
        want = want.fillna(default)  # where nothing is given the default of the lookup applies
        got = got.fillna(default)
    if want is None:
        if got is not None and bool(got.notnull().any()) and got.dtype.kind == "f":
            ctx.fail("input-left-behind", f"{name} was not updated, yet the backend reports {describe(got)}", **facts)
        return
    if got is None:
        ctx.fail("input-missing", f"the backend reports no {name}", **facts)
    wd, we = entries(want)
    gd, ge = entries(got)
    if wd != gd:
        # an entry that is the same along a missing dimension says the same
        got = got.broadcast_like(want) if set(gd) <= set(wd) else got
        want = want.broadcast_like(got) if set(wd) <= set(gd) else want
        we, ge = entries(want)[1], entries(got)[1]
    d = lib.compare_labels({str(k): v for k, v in ge.items()}, {str(k): v for k, v in we.items()}, rel=1e-12)
    if d:
        ctx.fail("other-inputs", f"backend inputs of {name} vs the update rule: {'; '.join(d)}", **facts)


def describe(x):
    if not isinstance(x, xr.DataArray):
        return repr(x)
    return f"array{dict(x.sizes)} {np.array2string(x.values, max_line_width=10**6, threshold=12)}"


def fresh(base, inputs, objective):
    """The problem of a model built anew from these inputs."""
    import calliope

    def build():
        f = calliope.Model(inputs.copy(deep=True), base["attrs"].model_copy(deep=True))
        f.build(force=True, objective=objective)
        return lib.problem_of(f)

    return lib.attempt(build)


def compare(base, ctx, m, ref, objective, bounds, names):
    got = lib.problem_of(m)
    o = fresh(base, ref, objective)
    if not o.ok:
        ctx.log("fresh-build", repr(o))
        ctx.probe("fresh-build-refused")
        return
    want = o.value
    for (lab, which), v in bounds.items():
        if lab in want.vars:
            lb, ub, kind = want.vars[lab]
            want.vars[lab] = (v, ub, kind) if which == "min" else (lb, v, kind)
    d = canon.equivalent(want, got, ctx.world.solve3)
    if d:
        ctx.fail("other-problem", f"after updates of {names} and bounds of {sorted({k[0].partition('[')[0] for k in bounds})}: built anew vs updated: {d}", names=",".join(sorted(set(names))))
    ctx.probe("problems-compared")
