"""What an LP file says, to be compared with a problem irrespective of names and order."""
from __future__ import annotations

import hashlib
import subprocess

INF = float("inf")


class Bad(Exception):
    pass


def num(s):
    s = s.lower()
    if s in ("inf", "+inf", "infinity", "+infinity"):
        return INF
    if s in ("-inf", "-infinity"):
        return -INF
    return float(s)


def read(text):
    """{'sense', 'objective': {var: c}, 'rows': [(lb, ub, {var: c})], 'vars': {var: (lb, ub, int?)}}; raises Bad if cut off."""
    lines = [x.strip() for x in text.splitlines()]
    lines = [x for x in lines if x and not x.startswith("\\")]
    if not lines or lines[-1] != "end":
        raise Bad("the file does not end with 'end'")
    sense = {"min": 1, "minimize": 1, "max": -1, "maximize": -1}.get(lines[0].lower())
    if sense is None:
        raise Bad(f"no objective sense: {lines[0]!r}")
    obj, rows, bounds, ints, sos, section, cur = {}, [], {}, set(), [], "objective", None
    names = set()
    for x in lines[1:-1]:
        low = x.lower()
        if low in ("s.t.", "subject to", "st"):
            section, cur = "rows", None
        elif low == "bounds":
            section = "bounds"
        elif low in ("general", "binary", "sos1", "sos2", "sos", "generals", "binaries"):
            section = low
        elif section == "objective":
            if x.endswith(":"):
                continue
            c, v = x.split(None, 1)
            if v in obj:
                raise Bad(f"{v} twice in the objective")
            obj[v] = num(c)
        elif section == "rows":
            if x.endswith(":"):
                if cur is not None:
                    raise Bad(f"row before {x} has no right-hand side")
                if x in names:
                    raise Bad(f"two rows are called {x}")
                names.add(x)
                cur = {}
            elif x[:1] in "<>=":
                op, rhs = x.split()
                rhs = num(rhs)
                if cur is None:
                    raise Bad("right-hand side without a row")
                rows.append((rhs if op in ("=", ">=") else -INF, rhs if op in ("=", "<=") else INF, cur))
                cur = None
            else:
                c, v = x.split(None, 1)
                cur[v] = cur.get(v, 0.0) + num(c)
        elif section == "bounds":
            parts = x.split(" <= ")
            if len(parts) != 3:
                raise Bad(f"bound {x!r}")
            bounds[parts[1].strip()] = (num(parts[0]), num(parts[2]))
        elif section.startswith("sos"):
            sos.append(x)
        else:
            ints.add(x)
            if section.startswith("bin") and x not in bounds:
                bounds[x] = (0.0, 1.0)
    if cur is not None:
        raise Bad("the last row has no right-hand side")
    used = set(obj).union(*[t for _, _, t in rows]) if rows else set(obj)
    missing = used - set(bounds)
    if missing:
        raise Bad(f"no bounds for {sorted(missing)[:3]}")
    return {"sense": sense, "objective": obj, "rows": rows, "vars": {k: (*bounds[k], k in ints) for k in used | set(bounds)}, "sos": sos}


def of_problem(p):
    """The same form of a canonical problem (fixed variables replaced by their values)."""
    rows = []
    for lb, ub, t in p.rows:
        shift = sum(c * (p.fixed[k] or 0.0) for k, c in t.items() if k in p.fixed)
        rest = {k: c for k, c in t.items() if k not in p.fixed}
        if rest:
            rows.append((lb - shift, ub - shift, rest))
    sense, const, terms = p.objective
    const += sum(c * (p.fixed[k] or 0.0) for k, c in terms.items() if k in p.fixed)
    obj = {k: c for k, c in terms.items() if k not in p.fixed}
    return {"sense": sense, "objective": obj, "const": const, "rows": rows, "vars": {k: (v[0], v[1], v[2] == "int") for k, v in p.vars.items()}, "sos": p.sos}


def fmt(x):
    return "0" if x == 0 else (str(x) if x in (INF, -INF) else f"{x:.6g}")


def signature(f, rounds=4):
    """Multisets that do not depend on names: rows and variables coloured by what they are connected to."""
    obj = {k: c for k, c in f["objective"].items() if c != 0}
    rows = []
    for lb, ub, t in f["rows"]:
        t = {k: c for k, c in t.items() if c != 0}
        if not t:
            continue
        # up to a positive or negative factor: the largest coefficient becomes one
        m = max(abs(c) for c in t.values())
        a = (lb / m, ub / m, {k: c / m for k, c in t.items()})
        b = (-a[1], -a[0], {k: -c for k, c in a[2].items()})
        rows.append((a, b))
    used = set(obj).union(*[a[2] for a, _ in rows]) if rows else set(obj)
    col = {k: h("v", fmt(f["vars"][k][0]), fmt(f["vars"][k][1]), f["vars"][k][2], fmt(obj.get(k, 0))) for k in used}
    for _ in range(rounds):
        seen = {k: [] for k in used}
        rc = []
        for a, b in rows:
            opts = [(h(fmt(x[0]), fmt(x[1]), *sorted(h(col[k], fmt(c)) for k, c in x[2].items())), x) for x in (a, b)]
            name, x = min(opts, key=lambda o: o[0])
            rc.append(name)
            tie = opts[0][0] == opts[1][0]  # the row is its own negative
            for k, c in x[2].items():
                seen[k].append(h(name, fmt(abs(c) if tie else c)))
        col = {k: h(col[k], *sorted(v)) for k, v in seen.items()}
    return (f["sense"], len(used), len(rows), len(obj), tuple(sorted(col.values())), tuple(sorted(rc)) if rows else ())


def h(*x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).hexdigest()


def diff(text, problem):
    """'' if the LP text states the problem."""
    try:
        got = read(text)
    except (Bad, ValueError) as e:
        return f"not a complete LP file: {e}"
    want = of_problem(problem)
    one = [k for k in got["vars"] if "ONE_VAR_CONSTANT" in k]
    if one or abs(want["const"]) > 1e-9:
        c = sum(got["objective"].pop(k, 0.0) for k in one)
        got["rows"] = [x for x in got["rows"] if not set(x[2]) & set(one)]
        for k in one:
            got["vars"].pop(k)
        if fmt(c) != fmt(want["const"]) and abs(c - want["const"]) > 1e-6 * (1 + abs(c)):
            return f"objective constant {c}, the problem has {want['const']}"
    a, b = signature(got), signature(want)
    if a[:4] != b[:4]:
        return f"(sense, variables, rows, objective terms): {a[:4]} in the file, {b[:4]} in the problem"
    if a != b:
        return "same size, different content"
    return ""
