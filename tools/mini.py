"""A small system to demonstrate with."""
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import pandas as pd

import calliope

MONEY = dict(dims="costs", index=["monetary"])


def definition(mode="base", steps=8, solver="cbc", window="2h", horizon="4h", cap=8.0, **techs):
    idx = [str(t) for t in pd.date_range("2005-01-01", periods=steps, freq="h")]
    ts = lambda v: dict(data=[float(x) for x in v], dims="timesteps", index=idx)
    cheap = [20 if i % 4 < 2 else 2 for i in range(steps)]
    d = {
        "config": {"init": {"name": "demo", "mode": mode, "broadcast_input_data": True}, "build": {}, "solve": {"solver": solver}},
        "techs": {
            "cheap": {"name": "a", "base_tech": "supply", "carrier_out": "el", "flow_cap_max": 30, "source_use_max": ts(cheap),
                      "cost_flow_out": dict(data=[1.0], **MONEY), "cost_flow_cap": dict(data=[2.0], **MONEY)},
            "dear": {"name": "b", "base_tech": "supply", "carrier_out": "el", "flow_cap_max": 30,
                     "cost_flow_out": dict(data=[9.0], **MONEY), "cost_flow_cap": dict(data=[1.0], **MONEY)},
            "store": {"name": "c", "base_tech": "storage", "carrier_in": "el", "carrier_out": "el", "flow_cap_max": 5, "storage_cap_max": cap, "cyclic_storage": False, "storage_initial": 0},
            "dem": {"name": "d", "base_tech": "demand", "carrier_in": "el", "sink_use_equals": ts([5 + i % 3 for i in range(steps)])},
        },
        "nodes": {"n0": {"techs": {"cheap": None, "dear": None, "store": None, "dem": None}}},
        "data_definitions": {},
    }
    if mode == "operate":
        d["config"]["build"]["operate"] = {"window": window, "horizon": horizon}
        for t in d["techs"].values():
            for a, b in (("flow_cap_max", "flow_cap"), ("storage_cap_max", "storage_cap")):
                if a in t:
                    t[b] = t.pop(a)
    if mode == "spores":
        d["config"]["solve"]["spores"] = {"number": 3}
        d["data_definitions"]["spores_slack"] = 0.2
        for t in ("cheap", "dear"):
            d["techs"][t]["spores_tracker"] = True
    for name, more in techs.items():
        d["techs"][name].update(more)
    return d


def model(**kw):
    return calliope.read_dict(definition(**kw))


def same(a, b):
    """Whether two datasets have the same values."""
    return set(a.data_vars) == set(b.data_vars) and all((abs(a[v] - b[v]).fillna(0) < 1e-6).all() and (a[v].isnull() == b[v].isnull()).all() for v in a.data_vars if a[v].dtype.kind == "f")
