"""What the checks share: running operations on models and comparing what is observable."""
from __future__ import annotations

import contextlib
import io
import math
import os
import warnings

import numpy as np

from . import canon, models
from .core import HarnessError

OPTIMAL_TERMS = ("optimal", "feasible")


# -- calling the code under test ------------------------------------------------------------------
class Outcome:
    """What a call did: returned or raised."""

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    @property
    def ok(self):
        return self.error is None

    @property
    def name(self):
        return "returned" if self.ok else "raised " + type(self.error).__name__

    def __repr__(self):
        return self.name if self.ok else f"{self.name}: {str(self.error)[:200]}"


def attempt(fn, *a, **k):
    """Call; any exception, KeyboardInterrupt included, is an outcome (harness errors are not)."""
    try:
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter("ignore")
            return Outcome(fn(*a, **k))
    except HarnessError:
        raise
    except BaseException as e:
        return Outcome(error=e)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def queue(world, outcomes):
    world.outcomes[:] = [dict(o) for o in outcomes]


def problem_of(model):
    """Canonical form of the optimisation problem a built model holds now."""
    labels = canon.object_labels(model.backend.variables)
    inst = instance_of(model)
    return canon.canonical(inst, labels)


def instance_of(model):
    inst = getattr(model.backend, "_instance", None)
    if inst is not None:
        return inst
    # the block that owns the variables
    for v in model.backend.variables.values():
        for o in v.values.ravel():
            if hasattr(o, "parent"):
                while o.parent is not None:
                    o = o.parent
                return o
    raise HarnessError("no backend instance found")


# -- values of results ----------------------------------------------------------------------------
def da_labels(name, da, skipnan=True):
    """{label: value} of a data array, in the labels the solver world uses."""
    vals = np.asarray(da.values)
    if vals.ndim == 0:
        v = float(vals)
        return {} if (skipnan and math.isnan(v)) else {str(name): v}
    dims = sorted(da.dims)
    cs = {d: [canon.fmt_coord(c) for c in da[d].values] for d in dims}
    axes = {d: da.dims.index(d) for d in dims}
    out = {}
    flat = vals.ravel()
    for pos in range(flat.size):
        v = flat[pos]
        if skipnan and (v is None or (isinstance(v, (float, np.floating)) and math.isnan(v))):
            continue
        idx = np.unravel_index(pos, vals.shape)
        key = ",".join(cs[d][idx[axes[d]]] for d in dims)
        out[f"{name}[{key}]"] = v
    return out


def results_labels(results, names):
    out = {}
    for n in names:
        if n in results:
            out.update(da_labels(n, results[n]))
    return out


def near(a, b, rel=1e-7, ab=1e-8):
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def compare_labels(got, want, what="", rel=1e-7, ab=1e-8, limit=3):
    """Differences of two {label: value} maps."""
    out = []
    for k in sorted(set(got) | set(want)):
        if k not in got:
            out.append(f"{k}: missing, expected {want[k]}")
        elif k not in want:
            out.append(f"{k}: {got[k]}, expected none")
        elif isinstance(want[k], str) or isinstance(got[k], str):
            if str(got[k]) != str(want[k]):
                out.append(f"{k}: {got[k]!r} != {want[k]!r}")
        elif not near(got[k], want[k], rel, ab):
            out.append(f"{k}: {got[k]} != {want[k]}")
    if len(out) > limit:
        out = out[:limit] + [f"... {len(out)} differences"]
    return [f"{what}{o}" for o in out]


def compare_datasets(a, b, what="", exact=False, attrs=True, ignore=(), limit=4, rel=1e-7):
    """Differences of two xarray datasets: variables, coordinates, values, types, attributes."""
    out = []
    va, vb = set(map(str, a.data_vars)) - set(ignore), set(map(str, b.data_vars)) - set(ignore)
    for n in sorted(va ^ vb):
        out.append(f"{n} only in {'first' if n in va else 'second'}")
    ca, cb = set(map(str, a.coords)), set(map(str, b.coords))
    for n in sorted(ca ^ cb):
        out.append(f"coordinate {n} only in {'first' if n in ca else 'second'}")
    for n in sorted(ca & cb):
        out += compare_arrays(a[n], b[n], n, exact, rel)
    for n in sorted(va & vb):
        out += compare_arrays(a[n], b[n], n, exact, rel)
        if attrs:
            out += compare_attrs(a[n].attrs, b[n].attrs, n)
    for n in sorted(ca & cb) if attrs else ():
        out += compare_attrs(a[n].attrs, b[n].attrs, n)
    if attrs:
        out += compare_attrs(a.attrs, b.attrs, "dataset")
    if len(out) > limit:
        out = out[:limit] + [f"... {len(out)} differences"]
    return [f"{what}{o}" for o in out]


def compare_arrays(x, y, n, exact=False, rel=1e-7):
    if set(x.dims) != set(y.dims):
        return [f"{n}: dimensions {x.dims} vs {y.dims}"]
    if x.dims != y.dims:
        y = y.transpose(*x.dims)
    if x.shape != y.shape:
        return [f"{n}: shape {x.shape} vs {y.shape}"]
    a, b = np.asarray(x.values), np.asarray(y.values)
    ka, kb = kind(a), kind(b)
    if ka != kb:
        if {ka, kb} <= {"number", "bool"} or {ka, kb} <= {"text", "object"}:
            pass
        elif not a.size:
            return []
        else:
            return [f"{n}: type {a.dtype} vs {b.dtype}"]
    if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        fa, fb = a.astype(float), b.astype(float)
        if exact:
            bad = ~((fa == fb) | (np.isnan(fa) & np.isnan(fb)))
        else:
            bad = ~np.isclose(fa, fb, rtol=rel, atol=1e-9, equal_nan=True)
    else:
        fa, fb = np.array([norm(v) for v in a.ravel()], dtype=object).reshape(a.shape), np.array([norm(v) for v in b.ravel()], dtype=object).reshape(b.shape)
        bad = np.array([u != v for u, v in zip(fa.ravel(), fb.ravel())], dtype=bool).reshape(a.shape)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if a.ndim else ()
        where = {d: canon.fmt_coord(x[d].values[i[j]]) for j, d in enumerate(x.dims) if d in x.coords}
        return [f"{n}{where}: {a[i]!r} vs {b[i]!r} ({int(bad.sum())} of {bad.size} entries)"]
    return []


def kind(a):
    k = a.dtype.kind
    return {"f": "number", "i": "number", "u": "number", "b": "bool", "M": "time", "m": "time", "U": "text", "S": "text", "O": "object"}.get(k, k)


def norm(v):
    if v is None or (isinstance(v, (float, np.floating)) and math.isnan(v)):
        return "nan"
    if isinstance(v, (np.datetime64,)):
        return str(v.astype("datetime64[ns]"))
    if isinstance(v, (bool, np.bool_)):
        return repr(bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(float(v))
    return str(v)


def plain(x):
    """Nested plain data of attribute structures, for comparison."""
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, (list, tuple, np.ndarray)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        f = float(x)
        return "nan" if math.isnan(f) else f
    if x is None:
        return None
    return str(x)


def compare_attrs(a, b, n=""):
    pa, pb = plain(a), plain(b)
    return [f"{n} attribute {d}" for d in diff_plain(pa, pb)]


def diff_plain(a, b, path="", limit=4):
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            p = f"{path}.{k}" if path else k
            if k not in a or k not in b:
                out.append(f"{p}: only in {'first' if k in a else 'second'}")
            else:
                out += diff_plain(a[k], b[k], p)
    elif a != b:
        out.append(f"{path}: {str(a)[:120]!r} vs {str(b)[:120]!r}")
    return out[:limit] + (["..."] if len(out) > limit else [])


# -- a model's observable state -------------------------------------------------------------------
class State:
    """Copy of what a user can observe of a model, to be compared later."""

    def __init__(self, model, problem=True):
        self.inputs = model.inputs.copy(deep=True)
        self.results = model.results.copy(deep=True)
        self.is_built, self.is_solved = model.is_built, model.is_solved
        attrs = model.dump_all_attrs()
        self.termination = attrs["runtime"].get("termination_condition")
        attrs["runtime"].pop("timings", None)
        self.attrs = plain(attrs)
        self.problem = problem_of(model) if problem and model.is_built else None

    def diff(self, other, inputs=True, results=True, attrs=True, problem=True, status=True, exact=True, skip_attrs=()):
        out = []
        if status and (self.is_built, self.is_solved) != (other.is_built, other.is_solved):
            out.append(f"status built/solved {self.is_built, self.is_solved} -> {other.is_built, other.is_solved}")
        if inputs:
            out += compare_datasets(self.inputs, other.inputs, "inputs: ", exact=exact)
        if results:
            out += compare_datasets(self.results, other.results, "results: ", exact=exact)
            if self.termination != other.termination:
                out.append(f"termination {self.termination} -> {other.termination}")
        if attrs:
            a, b = dict(self.attrs), dict(other.attrs)
            for path in skip_attrs:
                a, b = drop(a, path), drop(b, path)
            out += [f"attrs: {d}" for d in diff_plain(a, b)]
        if problem and self.problem is not None and other.problem is not None:
            out += [f"problem: {d}" for d in canon.diff(self.problem, other.problem)]
        return out


def drop(d, path):
    """Copy of nested dict without the dotted key."""
    head, _, rest = path.partition(".")
    if head not in d:
        return d
    d = dict(d)
    if rest:
        if isinstance(d[head], dict):
            d[head] = drop(d[head], rest)
    else:
        del d[head]
    return d


# -- solving and what was presented ---------------------------------------------------------------
ANY_FAILURE = {"maxTimeLimit", "maxIterations", "infeasible", "unbounded", "infeasibleOrUnbounded", "intermediateNonInteger", "noSolution", "error",
               "unknown", "other", "solverFailure", "internalSolverError", "invalidProblem", "userInterrupt", "resourceInterrupt", "aborted"}
EXPECTED_TERMINATION = {"ok": "optimal", "okfile": "optimal", "tag": "optimal", "limit_sol": "maxTimeLimit", "limit_tag": "maxTimeLimit",
                        "limit_nosol": "maxTimeLimit", "iter_sol": "maxIterations", "infeasible": "infeasible", "unbounded": "unbounded"}


def terminations(ev):
    """What the solver's answer reads as."""
    if ev.solver == "glpk" and ev.kind in ("limit_sol", "limit_tag"):
        return {"maxTimeLimit", "feasible"}
    return {EXPECTED_TERMINATION[ev.kind]} if ev.kind in EXPECTED_TERMINATION else ANY_FAILURE


def termination_diff(term, evs):
    """'' if the reported termination is the terminations of these solver answers, else what differs."""
    parts = set(str(term).split(","))
    allowed = set().union(*[terminations(e) for e in evs])
    missing = [e.kind for e in evs if not terminations(e) & parts]
    if parts - allowed or missing:
        return f"the solver's answers read {sorted(allowed)}, the model says {term}"
    return ""


def check_values(results, ev, backend_vars, threshold=1e-10, sel=None):
    """Differences between result variables and the values the solver returned for the event."""
    got = results_labels(results, backend_vars)
    used = ev.problem.used() - set(ev.problem.fixed)
    want = {k: v for k, v in ev.values.items() if k in used}
    want.update({k: v for k, v in ev.problem.fixed.items()})
    want = {k: (0.0 if abs(v) < threshold else v) for k, v in want.items()}
    got = {k: v for k, v in got.items() if k in want or k in used}
    if sel is not None:
        want = {k: v for k, v in want.items() if sel(k)}
    return compare_labels(got, want)


def hours(model):
    """Model time covered, in seconds."""
    try:
        n = float((model.inputs.timestep_resolution).sum())
        return n * 3600.0
    except Exception:
        return 0.0
