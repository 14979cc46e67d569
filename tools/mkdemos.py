import pathlib, shutil
S=pathlib.Path("/verif/seeded")
SH='#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
D={}
D["c01-end-of-horizon"]='''
import mini

m = mini.model(mode="operate")
m.build()
m.solve()
r = m.results.sel(nodes="n0", techs="store", carriers="el").squeeze(drop=True)
level = 0
for i in range(len(r.timesteps)):
    t = r.isel(timesteps=i)
    level += float(t.flow_in) - float(t.flow_out)
    assert abs(float(t.storage) - level) < 1e-4, (i, float(t.storage), level)
'''
D["c01-end-storage-cap"]='''
import mini

m = mini.model(mode="operate", cap=0.5)
m.build()
m.solve()
r = m.results.sel(nodes="n0", techs="store", carriers="el").squeeze(drop=True)
level = 0
for i in range(len(r.timesteps)):
    t = r.isel(timesteps=i)
    level += float(t.flow_in) - float(t.flow_out)
    assert abs(float(t.storage) - level) < 1e-4, (i, float(t.storage), level)
'''
D["c02-late-window-index"]='''
import mini

kw = dict(mode="operate", window="2h", horizon="2h")
ref = mini.model(**kw)
ref.build()
ref.solve()

for stop in (2, 3):
    m = mini.model(**kw)
    m.build()
    solve, calls = m.backend._solve, []

    def interrupted(*args, **kwargs):
        calls.append(1)
        if len(calls) == stop:
            raise KeyboardInterrupt
        return solve(*args, **kwargs)

    m.backend._solve = interrupted
    try:
        m.solve()
        raise AssertionError("not interrupted")
    except KeyboardInterrupt:
        pass
    del m.backend._solve
    m.solve(force=True)
    assert mini.same(m.results, ref.results), stop
'''
D["c03-skip-infeasible"]='''
import mini
import xarray as xr

m = mini.model(mode="spores")
m.build()
solve, calls = m.backend._solve, []


def out_of_time(*args, **kwargs):
    calls.append(1)
    if len(calls) == 3:
        return xr.Dataset(attrs={"termination_condition": "maxTimeLimit"})
    return solve(*args, **kwargs)


m.backend._solve = out_of_time
m.solve()
assert m.results.spores.values.tolist() == [0, 1], m.results.spores.values
assert len(calls) == 3, calls
'''
D["c05-save-at-end"]='''
import pathlib
import tempfile

import mini

with tempfile.TemporaryDirectory() as folder:
    m = mini.model(mode="spores")
    m.build()
    solve, calls = m.backend._solve, []

    def interrupted(*args, **kwargs):
        calls.append(1)
        if len(calls) == 3:
            raise KeyboardInterrupt
        return solve(*args, **kwargs)

    m.backend._solve = interrupted
    try:
        m.solve(spores={"save_per_spore_path": folder})
        raise AssertionError("not interrupted")
    except KeyboardInterrupt:
        pass
    names = sorted(p.name for p in pathlib.Path(folder).glob("spore_*.nc"))
    assert names == ["spore_0.nc", "spore_1.nc"], names
'''
D["c06-incumbent"]='''
import mini
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
from pyomo.solvers.plugins.solvers.CBCplugin import CBCSHELL

m = mini.model()
m.build()
m.solve()
m.backend.update_input("cost_flow_out", 100)


def out_of_time(self, *args, **kwargs):
    results = SolverResults()
    results.problem.name = "unknown"
    results.solver.status = SolverStatus.aborted
    results.solver.termination_condition = TerminationCondition.maxTimeLimit
    return results


CBCSHELL.solve = out_of_time
m.solve(force=True)
assert not m.results.data_vars, list(m.results.data_vars)
assert m.runtime.termination_condition == "maxTimeLimit"
'''
D["c08-shallow-references"]='''
import mini
import xarray as xr

more = {"lifetime": 1, "cost_interest_rate": dict(data=[0.1], **mini.MONEY)}
one = mini.model(store=more)
one.build()
one.backend.update_input("cost_flow_cap", xr.DataArray([[3000.0]], dims=["costs", "techs"], coords={"costs": ["monetary"], "techs": ["store"]}))
one.solve()

two = mini.model(store={"cost_flow_cap": dict(data=[3000.0], **mini.MONEY), **more})
two.build()
two.solve()
a, b = float(one.results.min_cost_optimisation), float(two.results.min_cost_optimisation)
assert abs(a - b) < 1e-4, (a, b)
'''
D["c09-bounds-release"]='''
import mini

m = mini.model()
m.build()
m.solve()
m.backend.fix_variable("flow_out")
m.backend.update_variable_bounds("flow_out", max=1)
values = [v for v in m.backend.get_variable("flow_out").to_series().dropna()]
assert values and all(v.fixed for v in values), [v.fixed for v in values]
'''
D["c10-quantised"]='''
import pathlib
import tempfile

import calliope
import mini

m = mini.model(cheap={"flow_out_eff": 0.123456789012345, "cost_flow_out": dict(data=[3.21e-11], **mini.MONEY)})
with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "model.nc"
    m.to_netcdf(path)
    again = calliope.read_netcdf(path)
for name in ("flow_out_eff", "cost_flow_out"):
    a, b = m.inputs[name].fillna(-1), again.inputs[name].fillna(-1)
    assert (a.values == b.values).all(), (name, a.values, b.values)
'''
D["c11-retry"]='''
import errno
import pathlib
import tempfile

import calliope
import mini
import xarray as xr

m = mini.model()
m.build()
m.solve()
with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "model.nc"
    m.to_netcdf(path)
    before = path.read_bytes()
    write = xr.Dataset.to_netcdf

    def full(self, *args, **kwargs):
        if kwargs.get("group") == "results":
            raise OSError(errno.ENOSPC, "No space left on device")
        return write(self, *args, **kwargs)

    xr.Dataset.to_netcdf = full
    try:
        m.to_netcdf(path)
        raised = False
    except OSError:
        raised = True
    finally:
        xr.Dataset.to_netcdf = write
    assert raised, "saving to a full disk passed for a success"
    assert path.read_bytes() == before
'''
D["c12-overwrite"]='''
import pathlib
import tempfile

import mini

m = mini.model()
with tempfile.TemporaryDirectory() as folder:
    out = pathlib.Path(folder) / "out"
    out.mkdir()
    (out / "attrs.yaml").write_text("of another model\\n")
    (out / "results_flow_cap.csv").write_text("of another model\\n")
    try:
        m.to_csv(out)
        raised = False
    except FileExistsError:
        raised = True
    assert raised, "wrote to an existing directory"
    assert sorted(p.name for p in out.iterdir()) == ["attrs.yaml", "results_flow_cap.csv"]
    assert (out / "attrs.yaml").read_text() == "of another model\\n"
'''
D["c13-own-generator"]='''
import mini
import numpy as np


def run():
    m = mini.model(mode="spores")
    m.build()
    np.random.seed(12)
    m.solve(spores={"scoring_algorithm": "random", "number": 6})
    return m.results


one = run()
for _ in range(4):
    assert mini.same(one, run())
'''
D["c16-tracked-kept"]='''
import mini

m = mini.model(solver="glpk")
m.build()
m.solve(shadow_prices=["system_balance"])
assert "shadow_price_system_balance" in m.results
m.solve(force=True, shadow_prices=[])
assert not [v for v in m.results.data_vars if v.startswith("shadow_price")]
'''
D["c04-budget-drift"] = '''
import mini

one = mini.model(mode="spores")
one.build()
one.solve(spores={"number": 4})

two = mini.model(mode="spores")
two.build()
two.solve(spores={"number": 1})
two.solve(force=True, spores={"number": 4, "use_latest_results": True})

base = float(two.results.cost.sel(spores=0).sum())
most = float(two.results.cost.sum(["nodes", "techs", "costs"]).max())
assert most <= base * 1.2 + 1e-4, (most, base)
'''
D["c07-build-flag"] = '''
import mini

m = mini.model()
m.build()
try:
    m.build(force=True, backend="nonsense")
    raise AssertionError("not refused")
except Exception as error:
    assert not isinstance(error, AssertionError)
model_class = type(m.backend)
add, calls = model_class.add_constraint, []


def out_of_memory(self, *args, **kwargs):
    calls.append(1)
    if len(calls) == 3:
        raise MemoryError
    return add(self, *args, **kwargs)


model_class.add_constraint = out_of_memory
try:
    m.build(force=True)
    raise AssertionError("not interrupted")
except MemoryError:
    pass
finally:
    model_class.add_constraint = add
m.solve()
assert m.results.attrs.get("termination_condition", m.runtime.termination_condition) == "optimal"
'''
D["c14-overrides"] = '''
import calliope
import mini
from calliope.attrdict import AttrDict

override = AttrDict({"overrides": {"dearer": {"techs": {"dear": {"flow_cap_max": 7}}}}, "config": {"init": {"name": "other"}}})
before = override.as_dict()
models = [calliope.read_dict(mini.definition(), scenario="dearer", override_dict=override) for _ in range(2)]
for m in models:
    assert float(m.inputs.flow_cap_max.sel(techs="dear").max()) == 7
assert override.as_dict() == before
'''
D["c14-cached-math"] = '''
import pathlib
import tempfile

import calliope
import mini

TEXT = "constraints: {{most: {{description: x, foreach: [techs], where: flow_cap, equations: [{{expression: 'sum(flow_cap, over=[nodes, carriers]) <= {}'}}]}}}}"
with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "more.yaml"
    for limit in (500, 12):
        path.write_text(TEXT.format(limit))
        d = mini.definition()
        d["config"]["init"].update(math_paths={"more": str(path)}, extra_math=["more"])
        m = calliope.read_dict(d)
        m.build()
        m.solve()
        ub = m.backend.get_constraint("most", as_backend_objs=False).ub
        assert float(ub.max()) == limit, (float(ub.max()), limit)
'''
D["c15-limits"] = '''
import pathlib
import tempfile

import calliope.cli
import mini
from calliope.io import to_yaml
from click.testing import CliRunner
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
from pyomo.solvers.plugins.solvers.CBCplugin import CBCSHELL


def out_of_time(self, *args, **kwargs):
    results = SolverResults()
    results.problem.name = "unknown"
    results.solver.status = SolverStatus.aborted
    results.solver.termination_condition = TerminationCondition.maxTimeLimit
    return results


with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "model.yaml"
    d = mini.definition()
    to_yaml(d, path)
    result = CliRunner().invoke(calliope.cli.cli, ["run", str(path)])
    assert result.exit_code == 0, result.output
    CBCSHELL.solve = out_of_time
    result = CliRunner().invoke(calliope.cli.cli, ["run", str(path), "--fail_when_infeasible"])
    assert result.exit_code != 0, result.output
'''
D["c17-names-interrupted"] = '''
import mini

one = mini.model()
one.build()
one.solve()

two = mini.model()
two.build()
apply, calls = two.backend._apply_func, []


def interrupted(*args, **kwargs):
    calls.append(1)
    if len(calls) == 3:
        raise KeyboardInterrupt
    return apply(*args, **kwargs)


two.backend._apply_func = interrupted
try:
    two.backend.verbose_strings()
    raise AssertionError("not interrupted")
except KeyboardInterrupt:
    pass
del two.backend._apply_func
two.solve()
assert two.results.timesteps.dtype.kind == "M", two.results.timesteps
assert mini.same(one.results, two.results)
'''
SCRIPT = '''
import os
import pathlib
import subprocess
import tempfile

from calliope.util.generate_runs import generate


def run(folder, fail="none", **kwargs):
    """Run a script with a stand-in for calliope; the scenarios it was asked for."""
    folder = pathlib.Path(folder)
    (folder / "bin").mkdir(exist_ok=True)
    stand_in = folder / "bin" / "calliope"
    stand_in.write_text(f'#!/bin/sh\\necho "$4" >> "{folder}/calls"\\n[ "$4" != "{fail}" ]\\n')
    stand_in.chmod(0o755)
    generate("bash", out_file=str(folder / "run.sh"), **kwargs)
    subprocess.run([str(folder / "run.sh")], cwd=folder, env={**os.environ, "PATH": f"{folder}/bin:" + os.environ["PATH"]}, capture_output=True)
    return (folder / "calls").read_text().split()


'''
D["c18-stop-on-failure"] = SCRIPT + '''
with tempfile.TemporaryDirectory() as folder:
    calls = run(folder, fail="b", model_file="model.yaml", scenarios="a;b;c")
    assert calls == ["a", "b", "c"], calls
'''
D["c18-override-scenarios"] = SCRIPT + '''
with tempfile.TemporaryDirectory() as folder:
    folder = pathlib.Path(folder)
    (folder / "model.yaml").write_text("scenarios: {a: [x], b: [y]}\\noverrides: {x: {}, y: {}}\\n")
    (folder / "more.yaml").write_text("scenarios: {c: [x, y]}\\n")
    calls = run(folder, model_file=str(folder / "model.yaml"), scenarios=None, override_dict=str(folder / "more.yaml"))
    assert sorted(calls) == ["a", "b", "c"], calls
'''
for k,v in D.items():
    d=S/k; d.mkdir(exist_ok=True, parents=True)
    (d/"demo.sh").write_text(SH); (d/"demo.py").write_text(v.lstrip()); shutil.copy("/verif/tools/mini.py", d/"mini.py")
    (d/"demo.sh").chmod(0o755)
