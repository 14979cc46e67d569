"""Everything observable of a short session with one model, as lines of text.

Run as `python -m sim.transcript job.json out.json` it does so in a process of its own (own hash seed).
"""
from __future__ import annotations

import contextlib
import io
import json
import logging
import os
import pathlib
import sys
import warnings

import numpy as np

from . import lib, lpfile, models, seams


def dataset(name, ds):
    out = [f"{name} dims {sorted(map(str, ds.sizes))}"]
    for k, c in sorted(ds.coords.items(), key=lambda x: str(x[0])):
        out.append(f"{name} coordinate {k} {c.dims} {lib.kind(np.asarray(c.values))} {[lib.norm(v) for v in np.asarray(c.values).ravel()]}")
    for k, v in sorted(ds.data_vars.items(), key=lambda x: str(x[0])):
        out.append(f"{name} array {k} {v.dims} {lib.kind(np.asarray(v.values))} {[lib.norm(x) for x in np.asarray(v.values).ravel()]} {json.dumps(lib.plain(v.attrs), sort_keys=True)}")
    return out


def attrs(m):
    a = lib.plain(m.dump_all_attrs())
    a["runtime"].pop("timings", None)
    out = []

    def walk(x, path):
        if isinstance(x, dict) and x:
            for k in sorted(x):
                walk(x[k], f"{path}.{k}")
        else:
            out.append(f"attribute {path[1:]} = {x}")

    walk(a, "")
    return out


def files(root):
    out = []
    for f in sorted(root.rglob("*")):
        if f.is_file():
            text = f.read_text(encoding="utf-8", errors="replace")
            if f.name == "attrs.yaml":
                continue
            out.append(f"file {f.relative_to(root)} = {text}")
    return out


def tables(job):
    """Data frames of the job."""
    import pandas as pd

    return {k: pd.read_csv(io.StringIO(t["csv"]), index_col=t["index"], header=t["header"]) for k, t in job.get("tables", {}).items()} or None


def read(job):
    import calliope

    kw = job.get("read", {})
    if job.get("file"):
        return calliope.read_yaml(job["file"], data_table_dfs=tables(job), **kw)
    return models.make(job["model"], data_table_dfs=tables(job), **kw)


class Session:
    """One model and what is done with it, step by step."""

    def __init__(self, world, job, scratch, reader=None):
        self.world, self.job, self.scratch = world, job, pathlib.Path(scratch)
        self.reader = reader or (lambda: read(job))
        self.m, self.n, self.lines = None, -1, []

    def step(self, op):
        """Do it, and note all that it shows."""
        self.n += 1
        head = f"[{self.n} {op['op']}] "
        self.lines += [head + x for x in getattr(self, "do_" + op["op"])(op) or []]

    def do_read(self, op):
        o = lib.attempt(self.reader)
        lines = []
        if o.ok:
            self.m = o.value
            self.world.watch(self.m)
            lines += dataset("inputs", self.m.inputs) + attrs(self.m)
        return lines + ["outcome " + text(o)]

    def do_build(self, op):
        if self.m is None:
            return
        m = self.m
        o = lib.attempt(m.build, force=True)
        lines = ["outcome " + text(o)]
        if o.ok:
            p = lib.problem_of(m)
            lines += ["row " + repr(x) for x in p.rows] + ["variable " + repr(x) for x in p.vars.items()] + ["objective " + repr(p.objective)]
            f = self.scratch / f"p{self.n}.lp"
            m.backend.to_lp(f)
            lines += ["lp " + x for x in f.read_text().splitlines()]
            lines += backend(m)
        return lines

    def do_solve(self, op):
        m, world = self.m, self.world
        if m is None or not m.is_built:
            return
        lib.queue(world, op.get("outcomes", []))
        n0 = len(world.events)
        o = lib.attempt(m.solve, force=True, **op.get("options", {}))
        world.outcomes.clear()
        lines = ["outcome " + text(o)]
        for e in world.events[n0:]:
            lines += ["posed " + repr(x) for x in sorted(e.problem.rows, key=repr)] + ["posed objective " + repr(e.problem.objective)]
            lines.append("posed with " + repr((e.solver, e.options)))
        return lines + dataset("results", m.results) + attrs(m)

    def do_update(self, op):
        m = self.m
        if m is None or not m.is_built or op["param"] not in m.backend.inputs:
            return
        o = lib.attempt(m.backend.update_input, op["param"], m.backend.inputs[op["param"]].fillna(0) * op["factor"])
        return ["outcome " + text(o)] + ["row " + repr(x) for x in lib.problem_of(m).rows]

    def do_save(self, op):
        if self.m is None:
            return
        out = self.scratch / f"csv{self.n}"
        o = lib.attempt(self.m.to_csv, out)
        return ["outcome " + text(o)] + files(out)

    def do_reload(self, op):
        if self.m is None:
            return
        import calliope

        f = self.scratch / f"m{self.n}.nc"
        self.m.to_netcdf(f)
        self.m = m = calliope.read_netcdf(f)
        self.world.watch(m)
        return dataset("inputs", m.inputs) + dataset("results", m.results) + attrs(m)


def session(world, job, scratch):
    """Lines of all that the session shows."""
    import random

    np.random.seed(job.get("np_seed", 7))
    random.seed(job.get("py_seed", 7))
    s = Session(world, job, scratch)
    for op in job["ops"]:
        s.step(op)
    return s.lines


def backend(m):
    out = []
    for kind in ("parameters", "lookups", "variables", "global_expressions", "constraints", "piecewise_constraints", "objectives", "postprocessed"):
        for name, da in getattr(m.backend, kind).data_vars.items():
            out.append(f"component {kind} {name} {da.dims} {da.shape}")
    return out


def text(o):
    return "ok" if o.ok else f"{type(o.error).__name__}: {o.error}"


@contextlib.contextmanager
def surroundings(world, env):
    """What must not matter: clock, directory order, logging."""
    with contextlib.ExitStack() as st:
        if env.get("clock"):
            c = env["clock"]
            st.enter_context(seams.clock(world.disk, c["base"], c["step"], [tuple(j) for j in c.get("jumps", [])]))
        if env.get("order") is not None:
            st.enter_context(seams.directory_order(env["order"]))
        if env.get("log"):
            import calliope

            logging.disable(logging.NOTSET)
            with lib.quiet():
                calliope.set_log_verbosity(env["log"]["level"], include_solver_output=env["log"]["solver"], capture_warnings=False)
            st.callback(logging.disable, logging.CRITICAL)
            for h in logging.getLogger("calliope").handlers:
                h.setStream(io.StringIO()) if hasattr(h, "setStream") else None
        yield


def run(world, job, scratch):
    """The session, after what the process did before."""
    scratch = pathlib.Path(scratch)
    for n, p in enumerate(job.get("prior", [])):
        sub = scratch / f"prior{n}"
        sub.mkdir()
        with contextlib.suppress(Exception):
            session(world, p, sub)
    (scratch / "own").mkdir()
    return session(world, job, scratch / "own")


def main(job_path, out_path):
    from . import core

    job = json.loads(pathlib.Path(job_path).read_text())
    world = core.setup_world()
    scratch = pathlib.Path(job["scratch"])
    with surroundings(world, job["env"]):
        out = run(world, job, scratch)
    pathlib.Path(out_path).write_text(json.dumps(out))


if __name__ == "__main__":
    warnings.simplefilter("ignore")
    main(sys.argv[1], sys.argv[2])
