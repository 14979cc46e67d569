"""Canonical form of an optimisation problem held in a Pyomo (kernel) model.

The form does not depend on the order or the names of components, only on the mathematics: variables are
identified by (component, coordinates) as published by `backend.variables`, rows are compared as a
multiset, constants are moved to the right-hand side and fixed variables are folded into the constants.
"""
from __future__ import annotations

import math
import warnings

import numpy as np

INF = float("inf")


def fmt_coord(c):
    if isinstance(c, np.datetime64):
        return str(c.astype("datetime64[ns]"))
    if isinstance(c, (np.floating, float)):
        return repr(float(c))
    if isinstance(c, (np.integer, int)):
        return str(int(c))
    return str(c)


def object_labels(dataset, shift=None):
    """id(object) -> label for every backend object in an xarray dataset of objects.

    `shift` maps coordinate values (as labels) to the ones to be used instead.
    """
    import pandas as pd

    out = {}
    for name, da in dataset.data_vars.items():
        vals = da.values
        if vals.ndim == 0:
            o = vals.item()
            if o is not None and not isinstance(o, float):
                out[id(o)] = str(name)
            continue
        flat = vals.ravel()
        mask = ~pd.isnull(flat)
        if not mask.any():
            continue
        # dims in alphabetical order, so the label does not depend on the dimension order
        dims = sorted(da.dims)
        cs = []
        for d in dims:
            coord = [fmt_coord(c) for c in da[d].values]
            if shift and d in shift:
                coord = [shift[d].get(c, c) for c in coord]
            cs.append(coord)
        axes = [da.dims.index(d) for d in dims]
        for pos in np.flatnonzero(mask):
            idx = np.unravel_index(pos, vals.shape)
            key = ",".join(cs[i][idx[a]] for i, a in enumerate(axes))
            out[id(flat[pos])] = f"{name}[{key}]"
    return out


class Problem:
    """rows: list of (lb, ub, {label: coef}, constraint object id); objective: (sense, const, {label: coef})."""

    def __init__(self):
        self.vars = {}  # label -> (lb, ub, kind)
        self.fixed = {}  # label -> value
        self.var_ids = {}  # label -> id
        self.rows = []
        self.row_ids = []
        self.row_scale = []
        self.objective = None
        self.has_sos = False
        self.sos = []

    # -- comparison -------------------------------------------------------------------------------
    def used(self):
        u = set(self.objective[2]) if self.objective else set()
        for _, _, t in self.rows:
            u.update(t)
        for s in self.sos:
            u.update(s[1])
        return u

    def key(self, with_fixed=True, only_used=True):
        """Hashable canonical key, numbers at 9 significant digits."""
        used = self.used()
        vs = tuple(sorted((k, r(v[0]), r(v[1]), v[2]) for k, v in self.vars.items()
                          if k not in self.fixed and (k in used or not only_used)))
        fx = tuple(sorted((k, r(v)) for k, v in self.fixed.items())) if with_fixed else ()
        rows = tuple(sorted((r(lb), r(ub), tuple(sorted((k, r(c)) for k, c in t.items()))) for lb, ub, t in self.rows))
        o = self.objective
        obj = None if o is None else (o[0], r(o[1]), tuple(sorted((k, r(c)) for k, c in o[2].items())))
        return (vs, fx, rows, obj, tuple(sorted(map(repr, self.sos))))

    def lp(self):
        """Deterministic LP text of the problem and the name maps."""
        used = sorted(self.used() - set(self.fixed))
        name = {k: f"v{i}" for i, k in enumerate(used)}
        order = sorted(range(len(self.rows)), key=lambda i: repr_row(self.rows[i]))
        sense, const, terms = self.objective
        out = ["min" if sense == 1 else "max", "obj:"]
        body = [f"{c:+.17g} {name[k]}" for k, c in sorted(terms.items()) if c != 0]
        body.append(f"{const:+.17g} one_const")
        out += body
        out.append("s.t.")
        rownames = {}
        for n, i in enumerate(order):
            lb, ub, t = self.rows[i]
            expr = "\n".join(f"{c:+.17g} {name[k]}" for k, c in sorted(t.items()) if c != 0)
            if not expr:
                continue
            if lb == ub:
                out.append(f"e{n}:\n{expr}\n= {lb:.17g}")
                rownames[f"e{n}"] = i
            else:
                if lb > -INF:
                    out.append(f"l{n}:\n{expr}\n>= {lb:.17g}")
                    rownames[f"l{n}"] = i
                if ub < INF:
                    out.append(f"u{n}:\n{expr}\n<= {ub:.17g}")
                    rownames[f"u{n}"] = i
        out.append("konst: one_const = 1")
        out.append("bounds")
        ints, bins = [], []
        for k in used:
            lb, ub, kind = self.vars[k]
            lo = "-inf" if lb == -INF else f"{lb:.17g}"
            hi = "+inf" if ub == INF else f"{ub:.17g}"
            out.append(f"{lo} <= {name[k]} <= {hi}")
            if kind == "int":
                ints.append(name[k])
        if ints:
            out.append("general")
            out += ints
        out.append("end")
        return "\n".join(out) + "\n", {v: k for k, v in name.items()}, rownames

    def evaluate(self, values):
        sense, const, terms = self.objective
        return const + sum(c * values.get(k, 0.0) for k, c in terms.items())

    def violation(self, values):
        """Largest relative violation of rows and bounds at the point."""
        worst, where = 0.0, None
        for lb, ub, t in self.rows:
            a = sum(c * values.get(k, 0.0) for k, c in t.items())
            scale = 1.0 + max((abs(c * values.get(k, 0.0)) for k, c in t.items()), default=0.0)
            v = max(lb - a if lb > -INF else 0, a - ub if ub < INF else 0, 0) / scale
            if v > worst:
                worst, where = v, (lb, ub, t)
        for k, (lb, ub, _) in self.vars.items():
            x = self.fixed.get(k, values.get(k))
            if x is None:
                continue
            v = max(lb - x if lb > -INF else 0, x - ub if ub < INF else 0, 0) / (1 + abs(x))
            if v > worst and k not in self.fixed:
                worst, where = v, (k, lb, ub, x)
        return worst, where


def r(x):
    if x is None or x == INF or x == -INF:
        return str(x)
    if x == 0:
        return "0"
    return f"{x:.9g}"


def repr_row(row):
    lb, ub, t = row
    return (r(lb), r(ub), repr(sorted((k, r(c)) for k, c in t.items())))


def canonical(instance, labels):
    """Problem of a Pyomo kernel block; labels: id(var) -> label (others get their Pyomo name)."""
    import pyomo.kernel as pmo
    from pyomo.core.kernel.constraint import IConstraint
    from pyomo.core.kernel.objective import IObjective
    from pyomo.core.kernel.sos import ISOS
    from pyomo.core.kernel.variable import IVariable
    from pyomo.repn import generate_standard_repn

    p = Problem()
    by_id = {}

    def lab(v):
        k = by_id.get(id(v))
        if k is None:
            k = labels.get(id(v))
            if k is None:
                k = "pyomo:" + str(v.name)
            by_id[id(v)] = k
            lb = -INF if v.lb is None else float(v.lb)
            ub = INF if v.ub is None else float(v.ub)
            kind = "int" if (v.is_integer() or v.is_binary()) else "real"
            if v.is_binary():
                lb, ub = max(lb, 0), min(ub, 1)
            p.vars[k] = (lb, ub, kind)
            p.var_ids[k] = id(v)
            if v.fixed:
                p.fixed[k] = None if v.value is None else float(v.value)
        return k

    for v in instance.components(ctype=pmo.variable._ctype, active=True):
        lab(v)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for c in instance.components(ctype=pmo.constraint._ctype, active=True):
            rep = generate_standard_repn(c.body, compute_values=True)
            if rep.nonlinear_expr is not None or rep.quadratic_vars:
                p.rows.append((0.0, 0.0, {"nonlinear:" + str(c.body): 1.0}))
                p.row_ids.append(id(c))
                p.row_scale.append(1.0)
                continue
            terms = {}
            for coef, v in zip(rep.linear_coefs, rep.linear_vars):
                k = lab(v)
                terms[k] = terms.get(k, 0.0) + float(coef)
            terms = {k: c2 for k, c2 in terms.items() if c2 != 0}
            const = float(rep.constant or 0)
            lb = -INF if c.lb is None else float(pmo.value(c.lb)) - const
            ub = INF if c.ub is None else float(pmo.value(c.ub)) - const
            if not terms and lb <= 1e-9 and ub >= -1e-9:
                continue
            if lb == -INF and ub == INF:
                continue
            f = 1.0
            if terms:
                f = terms[min(terms)]  # rows are compared up to scaling
                terms = {k: c2 / f for k, c2 in terms.items()}
                lb, ub = (lb / f, ub / f) if f > 0 else (ub / f, lb / f)
            p.rows.append((lb, ub, terms))
            p.row_ids.append(id(c))
            p.row_scale.append(f)
        objs = list(instance.components(ctype=pmo.objective._ctype, active=True))
        if len(objs) != 1:
            p.objective = (0, float(len(objs)), {"objectives": float(len(objs))})
        else:
            o = objs[0]
            rep = generate_standard_repn(o.expr, compute_values=True)
            terms = {}
            for coef, v in zip(rep.linear_coefs, rep.linear_vars):
                k = lab(v)
                terms[k] = terms.get(k, 0.0) + float(coef)
            terms = {k: c2 for k, c2 in terms.items() if c2 != 0}
            p.objective = (int(o.sense), float(rep.constant or 0), terms)
        for s in instance.components(ctype=pmo.sos._ctype, active=True):
            p.has_sos = True
            p.sos.append((int(s.level), tuple(lab(v) for v in s.variables), tuple(float(pmo.value(w)) for w in s.weights)))
    return p


def relabel(p: Problem, f):
    """The problem with every variable label replaced by f(label)."""
    q = Problem()
    q.vars = {f(k): v for k, v in p.vars.items()}
    q.fixed = {f(k): v for k, v in p.fixed.items()}
    q.row_ids, q.row_scale = list(p.row_ids), []
    for (lb, ub, t), scale in zip(p.rows, p.row_scale):
        t2 = {f(k): c for k, c in t.items()}
        s = 1.0
        if t2:
            s = t2[min(t2)]
            t2 = {k: c / s for k, c in t2.items()}
            lb, ub = (lb / s, ub / s) if s > 0 else (ub / s, lb / s)
        q.rows.append((lb, ub, t2))
        q.row_scale.append(scale * s)
    if p.objective is not None:
        q.objective = (p.objective[0], p.objective[1], {f(k): c for k, c in p.objective[2].items()})
    q.has_sos = p.has_sos
    q.sos = [(lv, tuple(f(k) for k in vs), ws) for lv, vs, ws in p.sos]
    return q


def diff(a: Problem, b: Problem, limit=4):
    """Human-readable differences of two problems (empty: equal up to 9 significant digits)."""
    out = []
    ka, kb = a.key(), b.key()
    if ka == kb:
        return out
    if tol_equal(a, b):
        return out
    da, db = dict((x[0], x[1:]) for x in ka[0]), dict((x[0], x[1:]) for x in kb[0])
    for k in sorted(set(da) | set(db)):
        if da.get(k) != db.get(k):
            out.append(f"variable {k}: {da.get(k)} vs {db.get(k)}")
    fa, fb = dict(ka[1]), dict(kb[1])
    for k in sorted(set(fa) | set(fb)):
        if fa.get(k) != fb.get(k):
            out.append(f"fixed {k}: {fa.get(k)} vs {fb.get(k)}")
    from collections import Counter

    ra, rb = Counter(ka[2]), Counter(kb[2])
    for x in sorted((ra - rb)):
        out.append(f"row only in first: {x[0]} <= {short(x[2])} <= {x[1]}")
    for x in sorted((rb - ra)):
        out.append(f"row only in second: {x[0]} <= {short(x[2])} <= {x[1]}")
    if ka[3] != kb[3]:
        out.append(f"objective: {short(ka[3], 400)} vs {short(kb[3], 400)}")
    if ka[4] != kb[4]:
        out.append("sos differ")
    if len(out) > limit:
        firsts = [o for o in out if not o.startswith("row only in second")][: limit // 2 + 1]
        seconds = [o for o in out if o.startswith("row only in second")][: limit // 2]
        out = firsts + seconds + [f"... {len(out)} differences"]
    return out


def close(x, y, rel=1e-7, ab=1e-9):
    if x is None or y is None:
        return x is y
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= max(ab, rel * max(abs(x), abs(y)))


def tol_equal(a, b):
    """Equality with tolerance, pairing rows by their variables."""
    ua, ub_ = a.used() - set(a.fixed), b.used() - set(b.fixed)
    if ua != ub_ or set(a.fixed) != set(b.fixed) or len(a.rows) != len(b.rows):
        return False
    for k in a.fixed:
        if not close(a.fixed[k], b.fixed[k]):
            return False
    for k in ua:
        x, y = a.vars[k], b.vars[k]
        if not (close(x[0], y[0]) and close(x[1], y[1]) and x[2] == y[2]):
            return False
    if (a.objective is None) != (b.objective is None):
        return False
    if a.objective:
        if a.objective[0] != b.objective[0] or not close(a.objective[1], b.objective[1]) or not terms_close(a.objective[2], b.objective[2]):
            return False
    if sorted(map(repr, a.sos)) != sorted(map(repr, b.sos)):
        return False
    groups = {}
    for row in a.rows:
        groups.setdefault(tuple(sorted(row[2])), []).append(row)
    for row in b.rows:
        cand = groups.get(tuple(sorted(row[2])), [])
        for i, c in enumerate(cand):
            if close(c[0], row[0]) and close(c[1], row[1]) and terms_close(c[2], row[2]):
                cand.pop(i)
                break
        else:
            return False
    return True


def terms_close(x, y):
    return set(x) == set(y) and all(close(x[k], y[k]) for k in x)


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def equivalent(a, b, solve, seed=0, n=3):
    """'' if the problems are equivalent, else what differs.

    First by their text; where that differs, by what it means: same optimum of the objective and of seeded
    other objectives (over the common variables), each optimum feasible in the other problem.
    `solve(problem)` returns (status, objective, values).
    """
    import random

    d = diff(a, b)
    if not d:
        return ""
    why = "; ".join(d)
    common = sorted((a.used() - set(a.fixed)) & (b.used() - set(b.fixed)))
    if set(a.objective[2]) - set(a.vars) or set(b.objective[2]) - set(b.vars) or a.objective[0] == 0 or b.objective[0] == 0:
        return why
    rng = random.Random(seed)
    saved = a.objective, b.objective
    try:
        for i in range(n + 1):
            if i:
                t = {k: round(rng.uniform(-1, 1), 3) for k in common if rng.random() < 0.5}
                a.objective = b.objective = (1, 0.0, t)
            sa, oa, va = solve(a)
            sb, ob, vb = solve(b)
            if sa != sb:
                return f"{why} [solver: {sa} vs {sb}]"
            if sa != "optimal":
                continue
            if not close(oa, ob, 1e-5, 1e-6):
                return f"{why} [optimum {oa} vs {ob}]"
            if a.violation({**vb, **a.fixed})[0] > 1e-5 and set(a.used()) <= set(vb) | set(a.fixed):
                return f"{why} [optimum of second infeasible in first]"
            if b.violation({**va, **b.fixed})[0] > 1e-5 and set(b.used()) <= set(va) | set(b.fixed):
                return f"{why} [optimum of first infeasible in second]"
    finally:
        a.objective, b.objective = saved
    return ""
