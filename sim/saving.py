"""Saved models: loading them and telling whether they are what was saved."""
from __future__ import annotations

import math

from . import lib

# not part of what a user saved: how long things took, and what each session adds by itself
SESSION = ("runtime.timings",)


def load(path, **kw):
    import calliope

    return calliope.read_netcdf(path, **kw)


def diff(state, model, exact=True):
    """Differences of a loaded model from the state of the one that was saved."""
    got = lib.State(model, problem=False)
    out = state.diff(got, status=False, exact=exact, skip_attrs=SESSION)
    if bool(state.results.data_vars) != bool(model.results.data_vars):
        out.append("results missing" if state.results.data_vars else "results appeared")
    return out
