"""The documented SPORES procedure, stated independently of the code: what each run should be asked to solve."""
from __future__ import annotations

import math

import numpy as np

from . import canon, lib

INF = canon.INF
RULES = ["integer", "relative_deployment", "random", "evolving_average"]
ADDITIVE = ["integer", "relative_deployment"]


def split(label):
    """(carrier, node, tech) of a flow capacity label."""
    return tuple(label.partition("[")[2][:-1].split(","))


def caps_of(values):
    return {k: v for k, v in values.items() if k.startswith("flow_cap[")}


def tracked(model_inputs, name):
    """Predicate over (carrier, node, tech): is it subject to scoring?"""
    if name is None or name not in model_inputs:
        return lambda c, n, t: True
    da = model_inputs[name]
    table = {k: v for k, v in zip_labels(da)}

    def f(c, n, t):
        key = tuple({"carriers": c, "nodes": n, "techs": t}[d] for d in sorted(map(str, da.dims)))
        v = table.get(key)
        return v is not None and bool(v)

    return f


def zip_labels(da):
    dims = sorted(map(str, da.dims))
    da = da.transpose(*dims)
    for pos in np.ndindex(*da.shape):
        v = da.values[pos]
        if v is None or (isinstance(v, (float, np.floating)) and math.isnan(v)):
            continue
        yield tuple(canon.fmt_coord(da[d].values[i]) for d, i in zip(dims, pos)), v


def lookup(da, c, n, t):
    """Value of an input at a technology, nan if undefined."""
    if da is None:
        return math.nan
    sel = {d: {"carriers": c, "nodes": n, "techs": t}[d] for d in map(str, da.dims)}
    return float(da.sel(**sel))


def next_scores(rule, old, history, is_tracked, flow_cap_max, factor):
    """Scores for the next run from those of the last one and the capacities of the runs so far.

    None for the random rule (see `random_step`).  Scores are {flow_cap label: value}, zeros left out.
    """
    last = history[-1]
    new = dict(old)
    mine = [k for k in last if is_tracked(*split(k))]
    if rule == "random":
        return None
    if rule == "evolving_average":
        avg = {k: sum(h[k] for h in history) / len(history) for k in last}
        change = {k: (abs(avg[k] - last[k]) / abs(avg[k]) * math.copysign(1, avg[k]) if avg[k] else (math.nan if avg[k] == last[k] else INF)) for k in last}
        if sum(v for v in change.values() if not math.isnan(v)) != 0:
            for k in mine:
                new[k] = 0.0 if math.isnan(change[k]) else 1 / max(change[k], 0.001)
            return {k: v for k, v in new.items() if v}
    if rule in ("integer", "evolving_average"):
        top = {}
        for k in mine:
            c = split(k)[0]
            top[c] = max(top.get(c, -INF), last[k])
        for k in mine:
            if last[k] > factor * top[split(k)[0]]:
                new[k] = new.get(k, 0.0) + 1000
    elif rule == "relative_deployment":
        for k in mine:
            cap = lookup(flow_cap_max, *split(k))
            if cap and not math.isnan(cap):
                rel = last[k] / cap
                if rel > factor:
                    new[k] = new.get(k, 0.0) + rel
    return {k: v for k, v in new.items() if v}


def random_step(old, got, last, is_tracked):
    """Differences of observed scores from any outcome of the random rule."""
    out = []
    for k in sorted(set(last) | set(got)):
        o, g = old.get(k, 0.0), got.get(k, 0.0)
        allowed = (o, o + 1000) if k in last and is_tracked(*split(k)) else (o,)
        if not any(lib.near(g, a) for a in allowed):
            out.append(f"{k}: score {g}, allowed {allowed}")
    return out


def is_unmet(label):
    return label.startswith(("unmet_demand[", "unused_supply["))


def cost_row(objective, limit):
    """The row that limits the cost expressed by an objective."""
    _, const, terms = objective
    if math.isinf(limit):
        return None
    ub = limit - const
    f = terms[min(terms)]
    t = {k: c / f for k, c in terms.items()}
    return (-INF, ub / f, t) if f > 0 else (ub / f, INF, t)


def baseline_problem(p0):
    """p0: problem of the freshly built model (cost objective)."""
    return canon.relabel(p0, lambda k: k)


def run_problem(p0, scores, cost, slack):
    """The problem of a SPORES run."""
    q = canon.relabel(p0, lambda k: k)
    row = cost_row(p0.objective, cost * (1 + slack))
    if row is not None:
        q.rows.append(row)
        q.row_scale.append(1.0)
        q.row_ids.append(None)
    terms = {k: v for k, v in scores.items() if v}
    terms.update({k: c for k, c in p0.objective[2].items() if is_unmet(k)})
    q.objective = (1, 0.0, terms)
    return q


def scores_of(problem):
    """Scores the posed problem applies."""
    return {k: c for k, c in problem.objective[2].items() if k.startswith("flow_cap[")}


def scores_in(results):
    """Scores the presented results of one run record."""
    return {k.replace("spores_score_cumulative", "flow_cap", 1): float(v) for k, v in lib.da_labels("spores_score_cumulative", results["spores_score_cumulative"]).items() if v}
