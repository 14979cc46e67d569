"""Interruptions of the code under test at any of its function calls.

A user's Ctrl-C, an alarm or a failed allocation surfaces in Python as an exception raised between two
bytecodes.  Here it is raised on entry to the n-th Python function of /repo/src/calliope that the
operation calls, n being part of the plan.
"""
from __future__ import annotations

import contextlib
import os
import sys

ROOT = os.path.realpath("/repo/src/calliope") + os.sep
TOOL = 3
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError}


class Use:
    calls = 0
    where = None


@contextlib.contextmanager
def at(n=None, exc="KeyboardInterrupt", only=None):
    """Raise exc on entry to the n-th call (0-based) of the code under test; n None: count only."""
    mon = sys.monitoring
    use = Use()
    seen = {}

    def start(code, _offset):
        ok = seen.get(code)
        if ok is None:
            # comprehensions and lambdas would make the counting depend on how the code is written
            ok = seen[code] = code.co_filename.startswith(ROOT) and not code.co_name.startswith("<")
        if not ok:
            return mon.DISABLE
        k = use.calls
        use.calls += 1
        if n is not None and k == n:
            use.where = f"{os.path.relpath(code.co_filename, ROOT)}:{code.co_qualname}"
            raise EXC[exc](f"simulated {exc} at call {n}: {use.where}")

    mon.use_tool_id(TOOL, "sim")
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)
    try:
        yield use
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.free_tool_id(TOOL)
        mon.restart_events()
