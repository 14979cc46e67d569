"""The simulated solver process.

Calliope and Pyomo run for real up to the moment Pyomo would start the solver executable and again from
the moment that process has ended.  What the process does in between is decided here, by the outcome the
plan gives for that request.  True optima are computed by the real executable on the LP file Pyomo wrote
(memoised on its text); every other ending is synthesised in the solver's own output format.
"""
from __future__ import annotations

import errno
import hashlib
import os
import pathlib
import re
import subprocess as real_subprocess
import tempfile

from . import canon

# outcome kinds -----------------------------------------------------------------------------------
OK = "ok"  # the true optimum of the canonical problem
OKFILE = "okfile"  # what the real executable answers to the very file and command line
TAG = "tag"  # "optimal", with seeded synthetic values (unique per entry)
LIMIT_SOL = "limit_sol"  # time limit, feasible incumbent
LIMIT_TAG = "limit_tag"  # time limit, seeded synthetic values
LIMIT_NOSOL = "limit_nosol"  # time limit reported, nothing usable written
LIMIT_NONINT = "limit_nonint"  # limit, "no integer solution - continuous used"
ITER_SOL = "iter_sol"  # iteration limit
INFEASIBLE = "infeasible"
UNBOUNDED = "unbounded"
DIFFICULTIES = "difficulties"
RC = "rc"  # exits with code 1, nothing written
KILLED = "killed"  # killed by a signal, nothing written
RC_SOL = "rc_sol"  # killed after the solution file was written
NOFILE = "nofile"  # exit 0, no solution file, log cut off
NOFILE_LOG = "nofile_log"  # exit 0, log says optimal, no solution file
TRUNC = "trunc"  # exit 0, log says optimal, solution file cut off in the values
NOEXEC = "noexec"  # the process cannot be started
INTERRUPT = "interrupt"  # the user interrupts while the solver runs

# endings after which a usable solution was returned by the solver
SOLVED = {OK, OKFILE, TAG}
WITH_VALUES = {OK, OKFILE, TAG, LIMIT_SOL, LIMIT_TAG, ITER_SOL}
RAISES = {RC, KILLED, RC_SOL, NOEXEC, INTERRUPT}
NO_RESULT = {LIMIT_NOSOL, LIMIT_NONINT, INFEASIBLE, UNBOUNDED, DIFFICULTIES, NOFILE, NOFILE_LOG, TRUNC}

CBC_HEAD = {
    OK: "Optimal - objective value {obj}",
    TAG: "Optimal - objective value {obj}",
    LIMIT_SOL: "Stopped on time - objective value {obj}",
    LIMIT_TAG: "Stopped on time - objective value {obj}",
    ITER_SOL: "Stopped on iterations - objective value {obj}",
    LIMIT_NONINT: "Stopped on time (no integer solution - continuous used) - objective value {obj}",
    INFEASIBLE: "Infeasible - objective value {obj}",
    UNBOUNDED: "Unbounded - objective value {obj}",
    DIFFICULTIES: "Stopped on difficulties - objective value {obj}",
}
CBC_LOG = {
    OK: "Optimal objective {obj} - 0 iterations time 0.002\n",
    TAG: "Optimal objective {obj} - 0 iterations time 0.002\n",
    LIMIT_SOL: "Cbc0020I Exiting on maximum time\nResult - Stopped on time limit\n",
    LIMIT_TAG: "Cbc0020I Exiting on maximum time\nResult - Stopped on time limit\n",
    LIMIT_NOSOL: "Cbc0020I Exiting on maximum time\nResult - Stopped on time limit\n",
    ITER_SOL: "Cbc0010I Exiting on maximum iterations\n",
    LIMIT_NONINT: "Result - Stopped on time limit\n\nNo feasible solution found\n",
    INFEASIBLE: "Problem is infeasible - 0.00 seconds\n",
    UNBOUNDED: "Problem is unbounded - 0.00 seconds\n",
    DIFFICULTIES: "",
}


def is_var(obj):
    from pyomo.core.kernel.variable import IVariable

    return isinstance(obj, IVariable)


class SolveEvent:
    """One request received by the simulated solver and the answer it gave."""

    def __init__(self, idx, instance, solver, lp_text, outcome):
        self.idx = idx
        self.instance = instance
        self.solver = solver
        self.lp_sha = hashlib.sha256(lp_text.encode()).hexdigest()[:16]
        self.requested = dict(outcome)
        self.kind = outcome["kind"]  # what really happened
        self.outcome = outcome
        self.values = None  # label -> value, if the solver returned values
        self.duals = None  # constraint label -> dual, if the solver returned duals
        self.problem = None  # canonical problem
        self.labels = {}  # id -> label
        self.objective = None
        self.options = []
        self.extra = {}

    def summary(self):
        return {"n": self.idx, "solver": self.solver, "asked": self.requested.get("kind"), "gave": self.kind,
                "values": None if self.values is None else len(self.values)}


class SolverWorld:
    """Owns the solver process boundary of this Python process."""

    def __init__(self, memo_dir=None):
        self.events = []
        self.outcomes = []  # queue of outcome dicts; empty -> default
        self.default = {"kind": OK}
        self.memo_dir = pathlib.Path(memo_dir) if memo_dir else None
        self.memo = {}
        self.instance = None
        self.models = []  # weak references of the models whose labels are known
        self.hooks = []  # called with the event before it is answered
        self.after_hooks = []  # called with the event after the answer is known
        self.fired = {}
        self.keep_lp = False
        self.real_runs = 0
        self._version_memo = {}
        self.coord_shift = None

    # -- installing ------------------------------------------------------------------------------
    def install(self):
        import pyomo.opt.base.solvers as base
        import pyomo.opt.solver.shellcmd as shellcmd
        import pyomo.solvers.plugins.solvers.CBCplugin as cbcp
        import pyomo.solvers.plugins.solvers.GLPK as glpkp

        world = self

        class Shim:
            def __getattr__(self, name):
                return getattr(real_subprocess, name)

            @staticmethod
            def run(cmd, **kw):
                return world._run(cmd, **kw)

        shim = Shim()
        for mod in (shellcmd, cbcp, glpkp):
            mod.subprocess = shim

        if not getattr(base.OptSolver, "_sim_wrapped", False):
            orig = base.OptSolver.solve

            def solve(opt, *args, **kw):
                w = base.OptSolver._sim_world
                prev = w.instance
                w.instance = args[0] if args else None
                try:
                    return orig(opt, *args, **kw)
                finally:
                    w.instance = prev

            base.OptSolver.solve = solve
            base.OptSolver._sim_wrapped = True
        base.OptSolver._sim_world = self
        return self

    def watch(self, model):
        import weakref

        self.models = [r for r in self.models if r() is not None]
        if all(r() is not model for r in self.models):
            self.models.append(weakref.ref(model))

    def labels_for(self, instance):
        """Labels of the objects of the model whose backend holds this instance."""
        import pyomo.kernel as pmo

        some = next(iter(instance.components(ctype=pmo.variable._ctype)), None)
        if some is None:
            return {}, None
        for ref in reversed(self.models):
            m = ref()
            b = getattr(m, "backend", None)
            if b is None:
                continue
            labels = canon.object_labels(b.variables, self.coord_shift)
            if any(id(v) in labels for v in instance.components(ctype=pmo.variable._ctype)):
                labels.update(canon.object_labels(b.constraints, self.coord_shift))
                return labels, m
        return {}, None

    # -- the process ------------------------------------------------------------------------------
    def next_outcome(self):
        o = self.outcomes.pop(0) if self.outcomes else None
        return dict(o or self.default)

    def _run(self, cmd, **kw):
        if isinstance(cmd, (list, tuple)) and len(cmd) <= 2 or "dummy" in cmd:
            key = tuple(cmd)  # version probes
            if key not in self._version_memo:
                kw2 = dict(kw)
                kw2.update(stdout=real_subprocess.PIPE, stderr=real_subprocess.STDOUT)
                self._version_memo[key] = real_subprocess.run(list(cmd), **kw2)
            return self._version_memo[key]
        exe = os.path.basename(cmd[0])
        solver = "glpk" if "glpsol" in exe else "cbc"
        lp, sol = self._paths(cmd, solver)
        text = pathlib.Path(lp).read_text()
        ev = SolveEvent(len(self.events), self.instance, solver, text, self.next_outcome())
        if self.keep_lp:
            ev.extra["lp"] = text
        ev.options = self._options(cmd, lp, sol)
        ev.labels, ev.extra["model"] = self.labels_for(ev.instance)
        ev.problem = canon.canonical(ev.instance, ev.labels)
        self.events.append(ev)
        for h in self.hooks:
            h(ev)
        try:
            return self._answer(ev, cmd, solver, lp, sol, text, kw)
        finally:
            self.fired[ev.kind] = self.fired.get(ev.kind, 0) + 1
            for h in self.after_hooks:
                h(ev)

    @staticmethod
    def _paths(cmd, solver):
        if solver == "cbc":
            return cmd[cmd.index("-import") + 1], cmd[cmd.index("-solu") + 1]
        return cmd[cmd.index("--cpxlp") + 1], (cmd[cmd.index("--write") + 1], cmd[cmd.index("--wglp") + 1])

    @staticmethod
    def _options(cmd, lp, sol):
        drop = {lp, *(sol if isinstance(sol, tuple) else (sol,))}
        fixed = {"-printingOptions", "all", "-import", "-stat=1", "-solve", "-solu", "--write", "--wglp", "--cpxlp"}
        return [c for c in cmd[1:] if c not in drop and c not in fixed]

    def _say(self, kw, text):
        out = kw.get("stdout")
        if out is not None and hasattr(out, "write"):
            out.write(text)

    def _done(self, cmd, rc=0):
        return real_subprocess.CompletedProcess(cmd, rc, "", "")

    def _answer(self, ev, cmd, solver, lp, sol, text, kw):
        kind = ev.kind
        if kind == INTERRUPT:
            raise KeyboardInterrupt("simulated interrupt while the solver is running")
        if kind == NOEXEC:
            e = getattr(errno, ev.outcome.get("errno", "ENOMEM"))
            raise OSError(e, os.strerror(e), cmd[0])
        if kind == RC:
            self._say(kw, "** internal error\n")
            return self._done(cmd, int(ev.outcome.get("rc", 1)))
        if kind == KILLED:
            self._say(kw, "Welcome\n")
            return self._done(cmd, -9)
        if kind == NOFILE:
            self._say(kw, "Welcome to the solver\n")
            return self._done(cmd, 0)
        if kind == OKFILE:
            return self._answer_file(ev, cmd, solver, sol, text, kw)
        # decide the answer in terms of labels
        rc = 0
        values, duals, obj = None, None, None
        int_problem = any(v[2] == "int" for k, v in ev.problem.vars.items() if k not in ev.problem.fixed)
        if solver == "glpk" and not int_problem:
            # Pyomo reads no limit status from an LP answer of glpk: a stopped LP has nothing usable
            if kind in (LIMIT_SOL, LIMIT_TAG, LIMIT_NONINT, ITER_SOL, DIFFICULTIES):
                kind = ev.kind = LIMIT_NOSOL
        elif solver == "glpk" and kind in (LIMIT_NONINT, ITER_SOL, DIFFICULTIES):
            kind = ev.kind = LIMIT_NOSOL
        if kind in (TAG, LIMIT_TAG):
            values = self.tag_values(ev)
            obj = ev.problem.evaluate(values)
            if solver == "glpk" and not int_problem:
                duals = self.tag_duals(ev)
        elif kind in (OK, RC_SOL, TRUNC, NOFILE_LOG):
            status, obj, values, duals = self.solve_problem(ev.problem, solver)
            if status != "optimal":
                kind = ev.kind = INFEASIBLE if status == "infeasible" else UNBOUNDED
                values = duals = None
        elif kind in (LIMIT_SOL, ITER_SOL, LIMIT_NONINT):
            status, obj, values, _ = self.solve_problem(ev.problem, "cbc", feasible_only=True)
            if status != "optimal":
                kind = ev.kind = LIMIT_NOSOL
                values = None
            else:
                obj = ev.problem.evaluate(values)
        if kind == RC_SOL:
            rc = -9
        if duals is not None:
            ids = {i: d for i, d in zip(ev.problem.row_ids, duals)}
            duals = {ev.labels.get(i, str(i)): d for i, d in ids.items()}
        obj = 12.5 if obj is None else obj
        ev.objective = obj
        write = self._write_glpk if solver == "glpk" else self._write_cbc
        write(ev, sol, text, kind, kw, values, duals, obj, int_problem)
        if kind in WITH_VALUES:
            ev.values = values
            ev.duals = duals if solver == "glpk" else None
        return self._done(cmd, rc)

    def symbols(self, ev):
        """LP symbol -> (is it a variable, label)"""
        maps = getattr(ev.instance, "._symbol_maps")
        smap = list(maps.values())[-1].bySymbol
        out = {}
        for n, o in smap.items():
            if is_var(o):
                out[n] = (True, ev.labels.get(id(o)) or "pyomo:" + str(o.name))
            else:
                out[n] = (False, ev.labels.get(id(o), str(id(o))))
        return out

    def _value(self, ev, values, label):
        if values is None:
            return 0.0
        if label in values:
            return values[label]
        lb, ub, _ = ev.problem.vars.get(label, (0.0, 0.0, "real"))
        v = min(max(0.0, lb), ub)
        values[label] = v  # a column without any coefficient
        return v

    def _write_cbc(self, ev, sol, text, kind, kw, values, duals, obj, int_problem):
        head = OK if kind in (RC_SOL, TRUNC, NOFILE_LOG) else kind
        self._say(kw, CBC_LOG[head].format(obj=obj))
        if kind in (LIMIT_NOSOL, NOFILE_LOG):
            return
        lines = [CBC_HEAD[head].format(obj=obj)]
        if kind not in (INFEASIBLE, UNBOUNDED, DIFFICULTIES):
            lines += ["%7d %s %.17g %d" % (i, n, 0, 0) for i, n in enumerate(lp_rows(text))]
            cols = [(n, s[1]) for n, s in self.symbols(ev).items() if s[0]]
            present = set(lp_columns(text))
            cols = [c for c in cols if c[0] in present]
            if kind == TRUNC:
                cols = cols[: max(1, int(len(cols) * float(ev.outcome.get("keep", 0.5))))]
            lines += ["%7d %s %.17g %d" % (i, n, self._value(ev, values, lab), 0) for i, (n, lab) in enumerate(cols)]
            if "ONE_VAR_CONSTANT" in present and kind != TRUNC:
                lines.append("%7d ONE_VAR_CONSTANT 1 0" % len(cols))
        pathlib.Path(sol).write_text("\n".join(lines) + "\n")

    def _write_glpk(self, ev, sol, text, kind, kw, values, duals, obj, int_problem):
        raw_path, glp_path = sol
        log = {INFEASIBLE: "PROBLEM HAS NO PRIMAL FEASIBLE SOLUTION\n", UNBOUNDED: "PROBLEM HAS NO DUAL FEASIBLE SOLUTION\n",
               LIMIT_NOSOL: "TIME LIMIT EXCEEDED; SEARCH TERMINATED\n", LIMIT_SOL: "TIME LIMIT EXCEEDED; SEARCH TERMINATED\n",
               LIMIT_TAG: "TIME LIMIT EXCEEDED; SEARCH TERMINATED\n"}.get(kind, "OPTIMAL SOLUTION FOUND\n")
        self._say(kw, log)
        if kind == NOFILE_LOG:
            return
        rows = lp_rows(text)
        sym = self.symbols(ev)
        present = set(lp_columns(text))
        cols = [(n, s[1]) for n, s in sym.items() if s[0] and n in present]
        const = "ONE_VAR_CONSTANT" in present
        names = [n for n, _ in cols] + (["ONE_VAR_CONSTANT"] if const else [])
        typ = "mip" if int_problem else "lp"
        glp = [f"p {typ} min {len(rows)} {len(names)} 1"]
        m_ = re.search(r"^(?:min|max)\s*\n\s*(\S+?):", text, re.M)
        glp += [f"n z {m_.group(1) if m_ else 'objective'}"]
        glp += [f"n i {i + 1} {n}" for i, n in enumerate(rows)]
        glp += [f"n j {i + 1} {n}" for i, n in enumerate(names)]
        p, d, m = {INFEASIBLE: ("i", "f", "n"), UNBOUNDED: ("f", "n", "u"), LIMIT_NOSOL: ("u", "u", "u"),
                   LIMIT_SOL: ("f", "u", "f"), LIMIT_TAG: ("f", "u", "f")}.get(kind, ("f", "f", "o"))
        raw = ["c simulated glpsol", f"s {'mip' if int_problem else 'bas'} {len(rows)} {len(names)} "
               + (m if int_problem else f"{p} {d}") + f" {obj:.17g}"]
        for i, n in enumerate(rows):
            if int_problem:
                raw.append(f"i {i + 1} 0")
                continue
            dv = 0.0
            if duals is not None and n in sym:
                dv = duals.get(sym[n][1], 0.0)
                if n.startswith("r_u_") or n.startswith("r_l_"):
                    # one of the two sides carries the dual
                    dv = dv if (dv >= 0) == n.startswith("r_l_") else 0.0
            raw.append(f"i {i + 1} b 0 {dv:.17g}")
        for i, n in enumerate(names):
            v = 1.0 if n == "ONE_VAR_CONSTANT" else self._value(ev, values, sym[n][1])
            raw.append(f"j {i + 1} {v:.17g}" if int_problem else f"j {i + 1} b {v:.17g} 0")
        raw.append("e o f")
        if kind == TRUNC:
            raw = raw[: max(3, int(len(raw) * float(ev.outcome.get("keep", 0.5))))]
        pathlib.Path(raw_path).write_text("\n".join(raw) + "\n")
        pathlib.Path(glp_path).write_text("\n".join(glp) + "\n")

    def _answer_file(self, ev, cmd, solver, sol, text, kw):
        """The real executable on the real file and options."""
        exe = "/usr/bin/glpsol" if solver == "glpk" else "/usr/bin/cbc"
        key = "file-" + hashlib.sha256(("\0".join([solver, *ev.options, text])).encode()).hexdigest()
        hit = self._memo_get(key)
        if hit is None:
            with tempfile.TemporaryDirectory(prefix="simsolver") as d:
                p = pathlib.Path(d)
                (p / "m.lp").write_text(text)
                if solver == "cbc":
                    c = [exe, *ev.options, "-printingOptions", "all", "-import", str(p / "m.lp"), "-stat=1", "-solve", "-solu", str(p / "a")]
                else:
                    c = [exe, *ev.options, "--write", str(p / "a"), "--wglp", str(p / "b"), "--cpxlp", str(p / "m.lp")]
                r = self._exec(c, d)
                hit = (r.stdout.replace(d, "/sim"), rd(p / "a"), rd(p / "b"))
            self._memo_put(key, hit)
        log, a, b = hit
        self._say(kw, log)
        sym = self.symbols(ev)
        vals = {}
        if solver == "cbc":
            pathlib.Path(sol).write_text(a)
            if a.startswith("Optimal"):
                vals = {sym[n][1]: v for n, v in parse_cbc_values(a).items() if n in sym}
                ev.objective = float(a.split("\n", 1)[0].split()[-1])
        else:
            pathlib.Path(sol[0]).write_text(a)
            pathlib.Path(sol[1]).write_text(b)
            st, obj, by, _ = parse_glpk(a, b)
            if st == "optimal":
                ev.objective = obj
                vals = {sym[n][1]: v for n, v in by.items() if n in sym}
        if vals:
            ev.values = vals
        else:
            ev.kind = INFEASIBLE
        return self._done(cmd, 0)

    # -- the true optimum of a canonical problem ---------------------------------------------------
    def solve_problem(self, problem, solver="cbc", feasible_only=False):
        """(status, objective, {label: value}, [dual per row] or None); memoised on the canonical text."""
        saved = problem.objective
        if feasible_only:
            problem.objective = (1, 0.0, {})
        try:
            text, names, rownames = problem.lp()
        finally:
            problem.objective = saved
        key = solver + "-" + hashlib.sha256(text.encode()).hexdigest()
        hit = self._memo_get(key)
        if hit is None:
            with tempfile.TemporaryDirectory(prefix="simsolver") as d:
                p = pathlib.Path(d)
                (p / "m.lp").write_text(text)
                if solver == "cbc":
                    self._exec(["/usr/bin/cbc", "-printingOptions", "all", "-import", str(p / "m.lp"), "-solve", "-solu", str(p / "a")], d)
                else:
                    self._exec(["/usr/bin/glpsol", "--write", str(p / "a"), "--wglp", str(p / "b"), "--lp", str(p / "m.lp")], d)
                hit = (rd(p / "a"), rd(p / "b"))
            self._memo_put(key, hit)
        a, b = hit
        if solver == "cbc":
            head = a.split("\n", 1)[0]
            if not head.startswith("Optimal"):
                st = "infeasible" if "nfeasible" in head and not head.startswith("Dual") else "unbounded"
                if not head:
                    st = "infeasible"
                return st, None, {}, None
            by = parse_cbc_values(a)
            values = {k: clean(by.get(n, 0.0)) for n, k in names.items()}
            return "optimal", problem.evaluate(values), values, None
        st, obj, by, rowduals = parse_glpk(a, b)
        if st != "optimal":
            return st, None, {}, None
        values = {k: clean(by.get(n, 0.0)) for n, k in names.items()}
        duals = None
        if rowduals is not None:
            duals = [0.0] * len(problem.rows)
            for n, i in rownames.items():
                duals[i] += rowduals.get(n, 0.0) / problem.row_scale[i]
        return "optimal", problem.evaluate(values), values, duals

    def solve3(self, problem):
        return self.solve_problem(problem)[:3]

    def _exec(self, cmd, cwd):
        self.real_runs += 1
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        return real_subprocess.run(cmd, stdout=real_subprocess.PIPE, stderr=real_subprocess.STDOUT, text=True, cwd=cwd, timeout=120, env=env)

    # -- helpers ----------------------------------------------------------------------------------
    def _memo_get(self, key):
        if key in self.memo:
            return self.memo[key]
        if self.memo_dir is not None:
            f = self.memo_dir / key
            if f.exists():
                parts = f.read_text().split("\x00")
                if parts and parts[-1] == "END":
                    self.memo[key] = tuple(parts[:-1])
                    return self.memo[key]
        return None

    def _memo_put(self, key, val):
        self.memo[key] = val
        if self.memo_dir is not None:
            tmp = self.memo_dir / (key + ".%d" % os.getpid())
            tmp.write_text("\x00".join([*val, "END"]))
            tmp.rename(self.memo_dir / key)

    def tag_values(self, ev):
        """Seeded values inside the variables' bounds, a function of (seed, label) alone."""
        seed = ev.outcome.get("seed", 0)
        zero_p = ev.outcome.get("zero_p", 0.2)
        vals = {}
        used = ev.problem.used()
        for k, (lb, ub, kind) in ev.problem.vars.items():
            if k in ev.problem.fixed or k not in used:
                continue
            vals[k] = tag_value(seed, k, lb, ub, kind, zero_p)
        return vals

    def tag_duals(self, ev):
        seed = ev.outcome.get("seed", 0)
        return [round(unit(seed, "dual:" + ev.labels.get(i, str(n))) * 100 - 50, 6) for n, i in enumerate(ev.problem.row_ids)]


def unit(seed, label):
    h = hashlib.sha256(f"{seed}|{label}".encode()).digest()
    return int.from_bytes(h[:7], "big") / float(1 << 56)


def tag_value(seed, label, lb, ub, kind, zero_p=0.2):
    inf = float("inf")
    lo = lb if lb > -1e18 else (0.0 if ub > 0 else ub - 10)
    hi = ub if ub < 1e18 else lo + 40.0
    if unit(seed, "z:" + label) < zero_p and lb <= 0 <= ub:
        return 0.0
    v = round(lo + (hi - lo) * (0.01 + 0.98 * unit(seed, label)), 7)
    if kind == "int":
        v = float(round(v))
    return v


def clean(x):
    return 0.0 if abs(x) < 1e-11 else x


def rd(p):
    return p.read_text() if p.exists() else ""


def lp_rows(text):
    rows = []
    for line in text.splitlines():
        line = line.strip()
        if line.endswith(":") and line[:2] in ("c_", "r_"):
            rows.append(line[:-1])
    return rows


_NAME = re.compile(r"[A-Za-z_!\"#$%&(),.;?@'`{}|~][\w!\"#$%&(),.;?@'`{}|~]*")


def lp_columns(text):
    """Column names in order of first appearance in the LP text."""
    body = text[text.index("\n", text.index("*\\")) if "*\\" in text else 0:]
    seen = {}
    for line in body.splitlines():
        line = line.strip()
        if not line or line.endswith(":") or line[0] == "\\":
            continue
        for t in line.split():
            if _NAME.fullmatch(t) and t not in ("min", "max", "s.t.", "bounds", "end", "general", "binary", "free", "inf", "infinity"):
                seen[t] = None
    return list(seen)


def parse_cbc_values(soln):
    """Variable values of a cbc solution file."""
    vals, section = {}, None
    for line in soln.splitlines()[1:]:
        t = line.split()
        if t and t[0] == "**":
            t = t[1:]
        if len(t) < 3:
            continue
        if int(t[0]) == 0:
            section = 0 if section is None else section + 1
        if section == 1:
            vals[t[1]] = float(t[2])
    return vals


def parse_glpk(raw, glp):
    names, rows = {}, {}
    for line in glp.splitlines():
        t = line.split()
        if t[:2] == ["n", "j"]:
            names[int(t[2])] = t[3]
        elif t[:2] == ["n", "i"]:
            rows[int(t[2])] = t[3]
    status, obj, vals, duals, mip = "infeasible", None, {}, {}, False
    for line in raw.splitlines():
        t = line.split()
        if not t:
            continue
        if t[0] == "s":
            mip = t[1] == "mip"
            if mip:
                status = "optimal" if t[4] == "o" else "infeasible"
                obj = float(t[5])
            else:
                status = "optimal" if (t[4], t[5]) == ("f", "f") else ("unbounded" if t[5] == "n" else "infeasible")
                obj = float(t[6])
        elif t[0] == "j":
            vals[names[int(t[1])]] = float(t[2] if mip else t[3])
        elif t[0] == "i" and not mip:
            duals[rows[int(t[1])]] = float(t[4])
    return status, obj, vals, None if mip else duals
