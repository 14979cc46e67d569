"""Independent statement of what operate mode has to do: windows, horizons, carried storage."""
from __future__ import annotations

import numpy as np
import pandas as pd

from . import canon, lib


class Window:
    def __init__(self, start, kept, horizon):
        self.start, self.kept, self.horizon = start, kept, horizon

    def __repr__(self):
        return f"window {self.start} keeps {len(self.kept)} of {len(self.horizon)}"


def windows(timesteps, window, horizon):
    """The rolling windows of a series of timesteps."""
    ts = pd.DatetimeIndex(np.asarray(timesteps))
    w, h = pd.Timedelta(window), pd.Timedelta(horizon)
    out = []
    start = ts[0]
    while start <= ts[-1]:
        hor = ts[(ts >= start) & (ts < start + h)]
        kept = ts[(ts >= start) & (ts < start + w)]
        out.append(Window(start, [canon.fmt_coord(t) for t in kept.values], [canon.fmt_coord(t) for t in hor.values]))
        start = start + w
    return out


def split_time(label, stamps):
    """('flow_out', 'el,n0,sup0', stamp) or stamp None."""
    name, _, rest = label.partition("[")
    rest = rest[:-1] if rest else ""
    head, _, last = rest.rpartition(",")
    if last in stamps:
        return name, head, last
    return name, rest, None


def event_stamps(ev):
    """The time coordinates the backend used in this event, in order."""
    found = set()
    for lab in ev.labels.values():
        last = lab.rstrip("]").rpartition(",")[2].rpartition("[")[2]
        if len(last) > 10 and last[4] == "-" and last[10] == "T":
            found.add(last)
    return sorted(found)


def shifted_problem(ev, win):
    """The problem of the event with the window's real timesteps in its labels (None: another number of timesteps)."""
    stamps = event_stamps(ev)
    if len(stamps) != len(win.horizon):
        return None
    shift = dict(zip(stamps, win.horizon))

    def f(lab):
        name, rest, t = split_time(lab, shift)
        if t is None:
            return lab
        inner = f"{rest},{shift[t]}" if rest else shift[t]
        return f"{name}[{inner}]"

    return canon.relabel(ev.problem, f)


def end_storage(ev, win):
    """{'node,tech': storage level at the end of the window's kept part} of the event's answer."""
    vals = real_values(ev, win)
    if vals is None:
        return {}
    last = win.kept[-1]
    return {rest: v for (name, rest, t), v in vals.items() if name == "storage" and t == last}


class Reference:
    """The problem of one window's horizon as a stand-alone model poses it, as a function of the initial storage levels.

    The right-hand sides are linear in `storage_initial`: two stand-alone models give the whole family.
    """

    def __init__(self, full, definition_attrs, win, storages, first=False):
        self.win = win
        self.lo, self.hi = 0.25, 0.75
        self.a = self.build(full, definition_attrs, {s: self.lo for s in storages})
        self.b = self.build(full, definition_attrs, {s: self.hi for s in storages}) if storages else self.a
        self.given = self.build(full, definition_attrs, None) if first and storages else self.a
        if len(self.a.rows) != len(self.b.rows):
            raise lib.HarnessError("reference problems of a window differ in size")

    def build(self, full, attrs, initial):
        import calliope

        inp = full.copy(deep=True)
        inp = inp.drop_vars([c for c in ("windowsteps", "horizonsteps") if c in inp.coords])
        keep = pd.DatetimeIndex(self.win.horizon)
        inp = inp.sel(timesteps=keep)
        if initial is not None:
            nodes, techs = list(inp.nodes.values), list(inp.techs.values)
            arr = np.full((len(nodes), len(techs)), np.nan)
            if "storage_initial" in inp:
                given = inp["storage_initial"]
                for d, labels in (("nodes", nodes), ("techs", techs)):
                    if d not in given.dims:
                        given = given.expand_dims({d: labels})
                arr = given.transpose("nodes", "techs").values.copy()
            for key, v in initial.items():
                n, t = key.split(",")
                arr[nodes.index(n), techs.index(t)] = v
            old = inp["storage_initial"].attrs if "storage_initial" in inp else {}
            inp["storage_initial"] = (("nodes", "techs"), arr, dict(old))
        m = calliope.Model(inp, attrs, **{})
        m.build(operate={"window": "1000h", "horizon": "1000h"})
        return lib.problem_of(m)

    def at(self, levels):
        """The problem for the given initial levels (fractions); None: those of the definition."""
        if levels is None:
            return self.given
        p = canon.relabel(self.a, lambda k: k)
        for i, (ra, rb) in enumerate(zip(self.a.rows, self.b.rows)):
            if (ra[0], ra[1]) == (rb[0], rb[1]):
                continue
            if ra[2] != rb[2]:
                raise lib.HarnessError("reference rows differ in more than the right-hand side")
            key = {split_time(k, {self.win.horizon[0]})[1] for k in ra[2] if k.startswith("storage[") and k.endswith(self.win.horizon[0] + "]")}
            if len(key) != 1:
                raise lib.HarnessError(f"cannot tell whose initial storage a row holds: {ra[2]}")
            s = levels[key.pop()]
            w = (s - self.lo) / (self.hi - self.lo)
            p.rows[i] = (ra[0] + w * (rb[0] - ra[0]) if ra[0] > -canon.INF else ra[0],
                         ra[1] + w * (rb[1] - ra[1]) if ra[1] < canon.INF else ra[1], ra[2])
        return p


def real_values(ev, win):
    """The event's values with the window's real timesteps: {(name, rest, stamp or None): value}."""
    stamps = event_stamps(ev)
    if len(stamps) != len(win.horizon):
        return None
    shift = dict(zip(stamps, win.horizon))
    used = ev.problem.used()
    out = {}
    for src in (ev.values, ev.problem.fixed):
        for lab, v in (src or {}).items():
            if lab not in used and lab not in ev.problem.fixed:
                continue
            name, rest, t = split_time(lab, shift)
            out[(name, rest, shift.get(t) if t else None)] = v
    return out


def check_results(results, events, wins, variables, threshold=1e-10, only_windows=None):
    """Differences between the results and the values each window's optimisation returned."""
    diffs = []
    stamps = [canon.fmt_coord(t) for t in results.timesteps.values] if "timesteps" in results.dims else []
    want_stamps = [t for w in wins for t in w.kept]
    if stamps != want_stamps:
        return [f"timesteps of the results are {brief(stamps)}, not every timestep once in order ({brief(want_stamps)})"]
    got = {}
    for n in variables:
        if n in results:
            for lab, v in lib.da_labels(n, results[n]).items():
                got[split_time(lab, set(stamps))] = v
    for i, w in enumerate(wins):
        if only_windows is not None and i not in only_windows:
            continue
        if i >= len(events):
            diffs.append(f"window {i} was never solved")
            break
        if events[i].values is None:
            bad = {k: v for k, v in got.items() if k[2] in set(w.kept)}
            if bad:
                k = sorted(bad, key=str)[0]
                diffs.append(f"window {i} returned no values ({events[i].kind}), the results have {k}: {bad[k]}")
            continue
        vals = real_values(events[i], w)
        if vals is None:
            diffs.append(f"window {i} was solved over {len(event_stamps(events[i]))} timesteps, its horizon has {len(w.horizon)}")
            continue
        kept = set(w.kept)
        for (name, rest, t), v in sorted(vals.items(), key=str):
            v = 0.0 if abs(v) < threshold else v
            for tt in (w.kept if t is None else [t] if t in kept else []):
                g = got.get((name, rest, tt))
                if g is None or not lib.near(g, v):
                    diffs.append(f"{name}[{rest},{tt}]: results have {g}, window {i} returned {v}")
    return diffs[:4] + ([f"... {len(diffs)} differences"] if len(diffs) > 4 else [])


def brief(x):
    return x if len(x) < 8 else [*x[:4], "...", *x[-3:]]
