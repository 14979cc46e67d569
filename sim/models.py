"""Seeded small energy systems as Calliope model definitions (plain JSON dictionaries)."""
from __future__ import annotations

import copy
import datetime
import os

TINY = os.path.join(os.path.dirname(os.path.abspath(__file__)), "math", "tiny.yaml")
EXTRA = os.path.join(os.path.dirname(TINY), "extra.yaml")
MORE = os.path.join(os.path.dirname(TINY), "more.yaml")


def stamps(steps, start="2005-01-01 00:00", minutes=60):
    t = datetime.datetime.fromisoformat(start)
    return [(t + datetime.timedelta(minutes=minutes * i)).strftime("%Y-%m-%d %H:%M:%S") for i in range(steps)]


def ts(values, index):
    return {"data": list(values), "dims": "timesteps", "index": list(index)}


def cost(rng, lo=1.0, hi=9.0, classes=("monetary",)):
    return {"data": [round(rng.uniform(lo, hi), 3) for _ in classes], "dims": "costs", "index": list(classes)}


def system(rng, mode="base", steps=4, start="2005-01-01 00:00", minutes=60, nodes=2, storage=True, link=True, conv=None,
           milp=False, tiny=True, classes=None, window=None, horizon=None, supplies=2, solver="cbc", feas=None, cyclic=None,
           gaps=False, name=None, index=None):
    """A system that is feasible by construction (unless demands are pushed later)."""
    idx = list(index) if index else stamps(steps, start, minutes)
    names = ["n%d" % i for i in range(nodes)]
    conv = rng.random() < 0.4 if conv is None else conv
    classes = classes or ["monetary"]
    operate = mode == "operate"
    cyclic = (not operate and rng.random() < 0.3) if cyclic is None else cyclic
    d = {
        "config": {"init": {"name": name or "m%d" % rng.randrange(10**6), "mode": mode, "broadcast_input_data": True},
                   "build": {}, "solve": {"solver": solver}},
        "techs": {}, "nodes": {n: {"techs": {}} for n in names}, "data_definitions": {},
    }
    if tiny:
        d["config"]["init"]["math_paths"] = {"base": TINY}
    if milp:
        d["config"]["init"]["extra_math"] = ["milp"]
    if feas if feas is not None else rng.random() < 0.2:
        d["config"]["build"]["ensure_feasibility"] = True
        d["data_definitions"]["bigM"] = 1000
    if operate:
        d["config"]["build"]["operate"] = {"window": window or "2h", "horizon": horizon or window or "2h"}
    if len(classes) > 1:
        d["data_definitions"]["objective_cost_weights"] = {"data": [round(rng.uniform(0.5, 2), 2) for _ in classes], "dims": "costs", "index": list(classes)}

    techs = d["techs"]
    for s in range(supplies):
        t = {"name": f"supply {s}", "base_tech": "supply", "carrier_out": "el"}
        t["flow_cap_max"] = round(rng.uniform(40, 60), 2)
        t["flow_out_eff"] = round(rng.uniform(0.6, 1.0), 3)
        t["cost_flow_cap"] = cost(rng, classes=classes)
        t["cost_flow_out"] = cost(rng, classes=classes)
        if rng.random() < 0.6 or s == 0:
            if s == 0:
                # the back-up supply is always available
                t["cost_flow_out"] = cost(rng, 10, 20, classes=classes)
            else:
                vals = [round(rng.uniform(0, 20), 2) for _ in idx]
                if gaps:
                    for i in range(len(vals)):
                        if rng.random() < 0.3:
                            vals[i] = float("nan")
                t["source_use_max"] = ts(vals, idx)
        elif rng.random() < 0.5:
            t["cost_source_use"] = cost(rng, classes=classes)
        techs[f"sup{s}"] = t
    dem = {"name": "demand", "base_tech": "demand", "carrier_in": "el"}
    dem["sink_use_equals"] = ts([round(rng.uniform(1, 10), 2) for _ in idx], idx)
    techs["dem"] = dem
    if storage:
        st = {"name": "storage", "base_tech": "storage", "carrier_in": "el", "carrier_out": "el",
              "flow_cap_max": round(rng.uniform(3, 8), 2), "storage_cap_max": round(rng.uniform(5, 20), 2),
              "flow_in_eff": round(rng.uniform(0.8, 1), 3), "flow_out_eff": round(rng.uniform(0.8, 1), 3),
              "storage_loss": round(rng.uniform(0, 0.05), 3), "cyclic_storage": bool(cyclic),
              "storage_initial": round(rng.uniform(0.1, 0.9), 3), "cost_flow_cap": cost(rng, 0.1, 1, classes=classes),
              "cost_storage_cap": cost(rng, 0.05, 0.5, classes=classes), "cost_flow_out": cost(rng, 0.01, 0.2, classes=classes)}
        techs["sto"] = st
    if conv:
        techs["boil"] = {"name": "conversion", "base_tech": "conversion", "carrier_in": "el", "carrier_out": "heat",
                         "flow_cap_max": round(rng.uniform(20, 30), 2), "flow_out_eff": round(rng.uniform(0.7, 0.95), 3),
                         "cost_flow_cap": cost(rng, classes=classes), "cost_flow_out": cost(rng, 0.1, 1, classes=classes)}
        techs["demh"] = {"name": "heat demand", "base_tech": "demand", "carrier_in": "heat",
                         "sink_use_equals": ts([round(rng.uniform(0.5, 4), 2) for _ in idx], idx)}
    hosts = {n: [] for n in names}
    for i, n in enumerate(names):
        host = hosts[n]
        host.append("sup0")
        host += [f"sup{s}" for s in range(1, supplies) if rng.random() < 0.7 or i == 0]
        host.append("dem") if (i == 0 or rng.random() < 0.7) else None
        if storage and (i == 0 or rng.random() < 0.4):
            host.append("sto")
        if conv and (i == 0 or rng.random() < 0.3):
            host += ["boil", "demh"]
        for t in host:
            d["nodes"][n]["techs"][t] = None
        for t in ("dem",):
            if t in host and rng.random() < 0.6:
                d["nodes"][n]["techs"][t] = {"sink_use_equals": ts([round(rng.uniform(1, 10), 2) for _ in idx], idx)}
        if "sto" in host and rng.random() < 0.4:
            d["nodes"][n]["techs"]["sto"] = {"storage_initial": round(rng.uniform(0.1, 0.9), 3)}
    if link:
        for i in range(nodes - 1):
            techs[f"link{i}"] = {"name": f"link {i}", "base_tech": "transmission", "link_from": names[i], "link_to": names[i + 1],
                                 "carrier_in": "el", "carrier_out": "el", "flow_cap_max": round(rng.uniform(5, 10), 2),
                                 "flow_out_eff": round(rng.uniform(0.85, 0.99), 3), "cost_flow_cap": cost(rng, 0.1, 1, classes=classes),
                                 "cost_flow_out": cost(rng, 0.01, 0.1, classes=classes)}
    if not tiny:
        for t in techs.values():
            if "cost_flow_cap" in t:
                t["cost_interest_rate"] = {"data": 0.1, "dims": "costs", "index": "monetary"}
                t["lifetime"] = rng.choice([10, 20, 25])
    if milp:
        if tiny:
            raise ValueError("milp needs the shipped math")
        techs["sup1"].update(cap_method="integer", flow_cap_per_unit=round(rng.uniform(5, 10), 2), purchased_units_max=8,
                             integer_dispatch=False)
        techs["sup1"].pop("flow_cap_max")
    if operate:
        for k, t in techs.items():
            if t["base_tech"] == "demand":
                continue
            t["flow_cap"] = t.pop("flow_cap_max")
            for c in ("cost_flow_cap", "cost_storage_cap", "cost_interest_rate", "lifetime"):
                t.pop(c, None)
            if "storage_cap_max" in t:
                t["storage_cap"] = t.pop("storage_cap_max")
    if not d["data_definitions"]:
        del d["data_definitions"]
    return d


def set_ts(definition, path, values):
    """Replace the data of a time series at `path` (keys)."""
    x = definition
    for k in path:
        x = x[k]
    x["data"] = list(values)


SCALED = ("flow_cap", "flow_cap_max", "storage_cap", "storage_cap_max", "source_use_max", "source_use_min", "source_use_equals", "sink_use_equals", "sink_use_max", "sink_use_min",
          "source_cap", "source_cap_max", "flow_cap_per_unit")


def scaled(d, factor):
    """The same system measured in other units (e.g. GW for MW)."""
    if isinstance(d, list):
        return [scaled(v, factor) for v in d]
    if not isinstance(d, dict):
        return d
    out = {}
    for k, v in d.items():
        if k in SCALED and isinstance(v, dict):
            out[k] = {**v, "data": [x * factor for x in v["data"]] if isinstance(v["data"], list) else v["data"] * factor}
        elif k in SCALED and isinstance(v, (int, float)):
            out[k] = v * factor
        else:
            out[k] = scaled(v, factor)
    return out


def clone(d):
    return copy.deepcopy(d)


def make(definition, **kw):
    """A Model from a (JSON) definition; the definition is not shared with it."""
    import calliope

    return calliope.read_dict(copy.deepcopy(definition), **kw)


TYPES = os.path.join(os.path.dirname(TINY), "types.yaml")
NAMES = ["Röhre", "日本", "a b", "x-1", "Ω", "naïve", "tab", "ß"]
TEXTS = ["plain", "yes", "null", "1e3", "2005-01-01", "a: b", "# hash", "Grüße", "'quoted'", "multi\nline", "None", "True", " padded ", "{}", "[]"]


def decorate(d, rng):
    """Add every type of content the definition format has to a system (that has the types math)."""
    d["config"]["init"].setdefault("math_paths", {})["types"] = TYPES
    d["config"]["init"].setdefault("extra_math", []).append("types")
    techs, nodes = d["techs"], d["nodes"]
    supplies = [t for t in techs if techs[t]["base_tech"] == "supply"]
    others = [t for t in techs if techs[t]["base_tech"] != "demand"]
    index = next(iter(v["index"] for v in techs["dem"].values() if isinstance(v, dict)))
    dd = d.setdefault("data_definitions", {})

    def some(of):
        return [x for x in of if rng.random() < 0.6] or [rng.choice(of)]

    if rng.random() < 0.7:
        for t in some(list(techs)):
            techs[t]["licensed"] = rng.random() < 0.5
    if rng.random() < 0.7:
        for t in some(list(techs)):
            techs[t]["label"] = rng.choice(TEXTS)
    if rng.random() < 0.7:
        for t in some(others):
            techs[t]["score"] = rng.choice([0, 1, 2.5, -1.0, float("inf")])
    if rng.random() < 0.7:
        for t in some(others):
            techs[t]["online_from"] = rng.choice([index[0], index[-1], "2004-12-31 23:59:59"])
    if rng.random() < 0.6:
        for t in some(others):
            techs[t]["checked_on"] = rng.choice([index[0][:10], "2004-02-29"])
    if rng.random() < 0.5:
        for t in some(others):
            techs[t]["partner"] = rng.choice(list(techs))
    if rng.random() < 0.6:
        zones = ["north", "south", rng.choice(NAMES)]
        for n in some(list(nodes)):
            nodes[n]["zone"] = rng.choice([zones[0], [zones[1]], [zones[0], zones[2]]])
        used = sorted({z for n in nodes.values() if "zone" in n for z in ([n["zone"]] if isinstance(n["zone"], str) else n["zone"])})
        if rng.random() < 0.7:
            dd["zone_limit"] = {"data": [rng.choice([200, float("inf"), 150.5]) for _ in used], "dims": "zones", "index": used}
    if rng.random() < 0.6:
        years = rng.sample([1990, 2000, 2010, 2020, 0], rng.choice([1, 2, 3]))
        for t in some(others):
            techs[t]["vintage_limit"] = {"data": [rng.choice([5, float("inf"), 20.25]) for _ in years], "dims": "vintages", "index": years}
    if rng.random() < 0.6:
        grades = rng.sample([0.5, 1.0, 1.25, -2.0, 1e-9], rng.choice([1, 2, 3]))
        for t in some(supplies):
            techs[t]["grade_share"] = {"data": [round(rng.uniform(0, 1), 3) for _ in grades], "dims": "grades", "index": grades}
    if rng.random() < 0.5:
        techs["sup1"]["floor"] = ts([rng.choice([0, 1.5, float("nan")]) for _ in index], index)
    if rng.random() < 0.5:
        for i, n in enumerate(nodes):
            nodes[n].update(latitude=round(rng.uniform(-60, 60), 3), longitude=round(rng.uniform(-170, 170), 3))
    if rng.random() < 0.4:
        techs[rng.choice(list(techs))]["color"] = "#00ff00"
    if rng.random() < 0.5:
        for t in some(list(techs)):
            techs[t]["name"] = rng.choice(NAMES + TEXTS)
    if rng.random() < 0.4:
        dd["stray"] = rng.choice([7, "loose text", True, {"data": ["a", "b"], "dims": "techs", "index": list(techs)[:2]}])
    # names
    new = {}
    for t in list(techs):
        if t.startswith(("sup1", "sto", "link")) and rng.random() < 0.3:
            new[t] = t + rng.choice(["ü", "_b", "日本", "Ωmega"])
    for n in list(nodes):
        if rng.random() < 0.3:
            new[n] = n + rng.choice(["ß", "_c", "é", "Z9"])
    rename(d, new)
    c = d["config"]
    if rng.random() < 0.6:
        c["init"]["name"] = rng.choice(NAMES + TEXTS)
    if rng.random() < 0.4:
        c["solve"]["solver_options"] = rng.choice([{}, {"sec": 100}, {"ratio": 0.25, "nested": {"a": True, "b": None}, "list": [1, 2]}])
        if c["solve"]["solver_options"].get("ratio"):
            c["solve"].pop("solver_options")
    if rng.random() < 0.4:
        c["solve"]["shadow_prices"] = rng.choice([["system_balance"], ["system_balance", "flow_out_max"]])
    if rng.random() < 0.3:
        c["solve"]["zero_threshold"] = rng.choice([1e-10, 1e-8, 0])
    if rng.random() < 0.5:
        d["overrides"] = {"ü": {"techs": {list(techs)[0]: {"flow_cap_max" if c["init"]["mode"] != "operate" else "flow_cap": 55.5}}}, "second": {"config": {"init": {"name": "renamed"}}}}
        d["scenarios"] = {"all of it": ["ü", "second"], "one": ["ü"]}
    return d


def rename(d, names):
    """Rename techs and nodes in place."""
    if not names:
        return
    sub = lambda k: names.get(k, k)
    d["techs"] = {sub(k): v for k, v in d["techs"].items()}
    d["nodes"] = {sub(k): v for k, v in d["nodes"].items()}
    for n in d["nodes"].values():
        n["techs"] = {sub(k): v for k, v in n["techs"].items()}
    for t in d["techs"].values():
        for k in ("link_from", "link_to", "partner"):
            if k in t:
                t[k] = sub(t[k])
    stray = d.get("data_definitions", {}).get("stray")
    if isinstance(stray, dict):
        stray["index"] = [sub(k) for k in stray["index"]]


def clustered(d, rng, days=3, storage_math=True):
    """Cluster a system of whole days."""
    index = next(iter(v["index"] for v in d["techs"]["dem"].values() if isinstance(v, dict)))
    dates = sorted({i[:10] for i in index})
    heads = rng.sample(dates, max(1, len(dates) - 1))
    d["data_definitions"] = d.get("data_definitions", {}) | {"cluster_days": {"data": [x if x in heads else rng.choice(heads) for x in dates], "dims": "datesteps", "index": dates}}
    d["config"]["init"]["time_cluster"] = "cluster_days"
    if storage_math:
        d["config"]["init"].setdefault("extra_math", []).append("storage_inter_cluster")
    return d


def finer(d, step):
    """The same system with another time between its steps, which may be below a minute."""
    import pandas as pd

    old = next(v["index"] for v in d["techs"]["dem"].values() if isinstance(v, dict))
    new = dict(zip(old, [str(t) for t in pd.date_range(old[0], periods=len(old), freq=pd.Timedelta(step))]))
    new = {k: v + ("." + "0" * 6 if "ms" in step and "." not in v else "") for k, v in new.items()}
    d["config"]["init"].pop("datetime_format", None)

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, str) and v in new:
                    x[i] = new[v]
                else:
                    walk(v)

    walk(d)
