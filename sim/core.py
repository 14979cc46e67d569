"""Seeded simulation runs: planning, isolation, minimising, replay and evidence.

A run is (configuration, plan).  Both are JSON, generated from VERIF_SEED before anything is executed;
executing draws no random numbers, so a plan file is a complete schedule and fault trace and its own
replay file.  Every run is executed in a forked child of a process that has prepared the configuration's
starting state, so runs cannot influence each other and may be killed at will.
"""
from __future__ import annotations

import collections
import copy
import gc
import hashlib
import json
import os
import pathlib
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
PLAN_TIMEOUT = 200
KEEP_GOING = False
JOBS = int(os.environ.get("SIM_JOBS", "8"))


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, key, message, **facts):
        super().__init__(message)
        self.key = key
        self.message = message
        self.facts = facts


class HarnessError(Exception):
    """The machinery itself is wrong or cannot decide."""


class Ctx:
    """What one run may use and report."""

    def __init__(self, scratch, world, tier="quick"):
        self.scratch = pathlib.Path(scratch)
        self.world = world
        self.tier = tier
        self.events = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_seconds = 0.0
        self.fingerprint = None
        self.nontrivial = True
        self.evaluations = 1

    def log(self, *what):
        self.events.append(what)

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, name, n=1):
        self.faults[name] += n

    def fail(self, key, message, **facts):
        raise Violation(key, message, **facts)

    def fork(self, fn, timeout=PLAN_TIMEOUT):
        """Run fn in a forked child: ('ok', value), ('raised', text) or ('died', exit status)."""
        return run_forked(fn, self.scratch, timeout)


class Child:
    """A forked run: fn's value comes back through a file."""

    def __init__(self, fn, scratch, timeout):
        fd, self.name = tempfile.mkstemp(prefix="fork", dir=scratch)
        os.close(fd)
        sys.stdout.flush()
        sys.stderr.flush()
        self.deadline = time.monotonic() + timeout
        self.timeout = timeout
        self.started = time.monotonic()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            gc.disable()
            try:
                try:
                    value = ("ok", fn())
                except Violation as v:
                    value = ("violation", (v.key, v.message, v.facts))
                except BaseException as e:
                    value = ("raised", (type(e).__name__, str(e), traceback.format_exc()))
                with open(self.name, "wb") as f:
                    pickle.dump(value, f)
                    f.flush()
            except BaseException:
                code = 99
            finally:
                os._exit(code)

    def poll(self):
        """None while running, else (kind, value)."""
        got, status = os.waitpid(self.pid, os.WNOHANG)
        if not got:
            if time.monotonic() > self.deadline:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                os.unlink(self.name)
                return "timeout", "a simulated process did not end within %d s" % self.timeout
            return None
        try:
            data = pathlib.Path(self.name).read_bytes()
        finally:
            os.unlink(self.name)
        if status == 0 and data:
            return pickle.loads(data)
        return "died", os.waitstatus_to_exitcode(status)


def run_forked(fn, scratch, timeout):
    child = Child(fn, scratch, timeout)
    nap = 0.001
    while True:
        r = child.poll()
        if r is not None:
            break
        time.sleep(nap)
        nap = min(nap * 1.5, 0.02)
    kind, value = r
    if kind == "timeout":
        raise HarnessError(value)
    if kind == "violation":
        raise Violation(value[0], value[1], **value[2])
    return kind, value


def rng_for(*parts):
    return random.Random(hashlib.sha256("|".join(map(str, parts)).encode()).digest())


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def setup_world():
    """Import the code under test and install the seams; returns the solver world."""
    import logging
    import warnings

    from . import seams

    warnings.simplefilter("ignore")
    world = seams.install()
    memoise_one_of()
    import calliope  # noqa: F401

    repo = os.path.realpath("/repo/src")
    if not os.path.realpath(calliope.__file__).startswith(repo):
        raise HarnessError(f"calliope comes from {calliope.__file__}")
    logging.disable(logging.CRITICAL)
    return world


def memoise_one_of():
    """pyparsing's one_of is a pure function that takes a good part of every build: remember its results."""
    import pyparsing

    real, memo = pyparsing.one_of, {}

    def one_of(strs, caseless=False, use_regex=True, as_keyword=False, **kw):
        if kw:
            return real(strs, caseless, use_regex, as_keyword, **kw)
        if not isinstance(strs, str):
            strs = list(strs)
        key = (strs if isinstance(strs, str) else tuple(strs), caseless, use_regex, as_keyword)
        if key not in memo:
            memo[key] = real(strs, caseless, use_regex, as_keyword)
        return memo[key].copy()

    pyparsing.one_of = one_of


# -- one run -------------------------------------------------------------------------------------


def from_sut(exc):
    """Whether an exception was raised by (or below) the code under test rather than by this machinery."""
    last = None
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith("/repo/src/calliope/"):
            last = "sut"
        elif f.startswith(str(VERIF / "sim")) and not f.endswith("/solver.py"):
            last = "sim"
        tb = tb.tb_next
    return last == "sut"


def plan_body(check, base, plan, sub, world, tier):
    """The function a plan's child runs."""

    def body():
        import numpy as np

        ctx = Ctx(sub, world, tier)
        world.events.clear()
        world.outcomes.clear()
        world.fired.clear()
        world.hooks.clear()
        world.after_hooks.clear()
        np.random.seed(12345)
        random.seed(12345)
        out = {"status": "ok"}
        try:
            check.execute(base, plan, ctx)
        except Violation as v:
            out = {"status": "violation", "key": v.key, "message": v.message, "facts": v.facts}
        except HarnessError as e:
            out = {"status": "error", "message": str(e)}
        except BaseException as e:
            text = traceback.format_exc()
            if from_sut(e):
                out = {"status": "violation", "key": "unexpected-exception", "message": f"{type(e).__name__}: {e}",
                       "facts": {"exception": type(e).__name__}, "traceback": text[-3000:]}
            else:
                out = {"status": "error", "message": text[-3000:]}
        for k, n in world.fired.items():
            ctx.faults["solver:" + k] += n
        out["solves"] = len(world.events)
        out.update(digest=digest(ctx.events), faults=dict(ctx.faults), probes=dict(ctx.probes),
                   sim_seconds=ctx.sim_seconds, nontrivial=ctx.nontrivial, evaluations=ctx.evaluations,
                   fingerprint=digest(ctx.fingerprint if ctx.fingerprint is not None else ctx.events),
                   n_events=len(ctx.events), trace=[list(map(str, e)) for e in ctx.events[-60:]])
        return out

    return body


class PlanRun:
    """One plan, executed in a child."""

    def __init__(self, check, base, plan, scratch, world, tier):
        self.plan = plan
        self.sub = pathlib.Path(tempfile.mkdtemp(prefix="run", dir=scratch))
        self.child = Child(plan_body(check, base, plan, self.sub, world, tier), scratch, PLAN_TIMEOUT)

    def poll(self):
        r = self.child.poll()
        if r is None:
            return None
        shutil.rmtree(self.sub, ignore_errors=True)
        wall = time.monotonic() - self.child.started
        kind, value = r
        if kind == "ok":
            return {**value, "wall": wall}
        return {"status": "error", "message": f"run ended with {kind} {value}", "wall": wall}


def run_plan(check, base, plan, scratch, world, tier):
    run = PlanRun(check, base, plan, scratch, world, tier)
    nap = 0.001
    while True:
        r = run.poll()
        if r is not None:
            return r
        time.sleep(nap)
        nap = min(nap * 1.5, 0.02)


def prepare_config(check, config, scratch, world, tier):
    """Starting state of a configuration, or the violation that preparing it is."""
    import numpy as np

    np.random.seed(12345)
    random.seed(12345)
    ctx = Ctx(scratch, world, tier)
    world.events.clear()
    world.outcomes.clear()
    try:
        base = check.prepare(config, ctx)
        gc.collect()
        gc.freeze()
        return base, None
    except Violation as v:
        return None, {"status": "violation", "key": v.key, "message": v.message, "facts": v.facts}
    except HarnessError as e:
        return None, {"status": "error", "message": str(e)}
    except Exception as e:
        text = traceback.format_exc()
        if from_sut(e):
            return None, {"status": "violation", "key": "unexpected-exception", "message": f"{type(e).__name__}: {e}",
                          "facts": {"exception": type(e).__name__, "during": "prepare"}, "traceback": text[-3000:]}
        return None, {"status": "error", "message": text[-3000:]}


# -- minimising ----------------------------------------------------------------------------------


def default_shrink(plan):
    """Smaller plans: fewer operations, then simpler ones."""
    ops = plan.get("ops", [])
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n - size + 1, size):
            q = copy.deepcopy(plan)
            q["ops"] = ops[:i] + ops[i + size:]
            yield q
        size //= 2
    for i, op in enumerate(ops):
        for k in list(op):
            if k in ("fault", "faults", "outcomes", "outcome"):
                q = copy.deepcopy(plan)
                if isinstance(op[k], list) and len(op[k]) > 0:
                    for j in range(len(op[k])):
                        q = copy.deepcopy(plan)
                        q["ops"][i][k] = op[k][:j] + op[k][j + 1:]
                        yield q
                else:
                    del q["ops"][i][k]
                    yield q


def minimise(check, base, plan, result, scratch, world, tier, deadline, limit=60):
    best, best_result, tried = plan, result, 0
    shrinker = getattr(check, "shrink", default_shrink)
    progress = True
    while progress and tried < limit and time.monotonic() < deadline:
        progress = False
        for q in shrinker(best):
            if tried >= limit or time.monotonic() > deadline:
                break
            tried += 1
            r = run_plan(check, base, q, scratch, world, tier)
            if r["status"] == "violation" and r["key"] == result["key"]:
                best, best_result, progress = q, r, True
                break
    return best, best_result, tried


# -- known findings ------------------------------------------------------------------------------


def load_known(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["known"] if k["property"] == prop]


def match_known(known, result):
    for k in known:
        m = k["match"]
        if m.get("key") != result["key"]:
            continue
        if all(str(result.get("facts", {}).get(a)) == str(b) for a, b in m.get("facts", {}).items()):
            return k
    return None


# -- batches -------------------------------------------------------------------------------------


def group_process(check, spec, idx, root, world, tier, known, deadline, tokens):
    """Prepare one configuration and run its plans; results go to a file."""
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"g{idx}_", dir=root))
    out = open(root / f"group{idx}.out", "wb")
    stop = root / "stop"

    def emit(kind, value):
        pickle.dump((kind, value), out)
        out.flush()

    t0 = time.monotonic()
    base, bad = prepare_config(check, spec["config"], scratch, world, tier)
    emit("prepared", time.monotonic() - t0)
    if bad is not None:
        emit("result", {**bad, "plan": None, "config": spec["config"]})
        emit("end", None)
        return
    seen_keys = set()
    todo = list(enumerate(spec["plans"]))
    running = {}
    have = 1  # tokens held; the group itself was started with one
    nap = 0.001
    while todo or running:
        if stop.exists() or time.monotonic() > deadline:
            for _ in todo:
                emit("skipped", 1)
            todo = []
        progressed = False
        while todo and (len(running) < have or tokens.take()):
            have = max(have, len(running) + 1)
            i, plan = todo.pop(0)
            running[i] = PlanRun(check, base, plan, scratch, world, tier)
            progressed = True
        for i in list(running):
            r = running[i].poll()
            if r is None:
                continue
            progressed = True
            plan = running.pop(i).plan
            if r["status"] == "violation":
                k = match_known(known, r)
                if k is not None:
                    r["known"] = k["id"]
                elif r["key"] not in seen_keys:
                    seen_keys.add(r["key"])
                    if not KEEP_GOING:
                        stop.touch()
                    small, rs, tried = minimise(check, base, plan, r, scratch, world, tier, min(deadline, time.monotonic() + 120))
                    r = {**rs, "minimise_attempts": tried, "original_ops": len(plan.get("ops", [])), "plan": small, "config": spec["config"]}
            if r["status"] != "ok":
                r.setdefault("plan", plan)
                r.setdefault("config", spec["config"])
            emit("result", {**r, "index": i, "sample": plan if i == 0 else None})
            while have > max(1, len(running) + (1 if todo else 0)):
                tokens.give()
                have -= 1
        if progressed:
            nap = 0.001
        else:
            time.sleep(nap)
            nap = min(nap * 1.5, 0.02)
    while have > 1:
        tokens.give()
        have -= 1
    emit("end", None)
    shutil.rmtree(scratch, ignore_errors=True)


class Tokens:
    """Processor tokens shared by all group processes."""

    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b"x" * n)

    def take(self):
        try:
            return bool(os.read(self.r, 1))
        except BlockingIOError:
            return False

    def give(self):
        os.write(self.w, b"x")


def run_groups(check, specs, root, world, tier, known, deadline, jobs):
    """Run every group in its own process, up to `jobs` at once."""
    pending = list(enumerate(specs))
    running = {}
    codes = {}
    tokens = Tokens(jobs)
    while pending or running:
        while pending and len(running) < jobs and tokens.take():
            idx, spec = pending.pop(0)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    group_process(check, spec, idx, root, world, tier, known, deadline, tokens)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                    code = 98
                os._exit(code)
            running[pid] = idx
        pid, status = os.waitpid(-1, os.WNOHANG) if pending and len(running) < jobs and running else os.wait()
        if not pid:
            time.sleep(0.02)
        if pid in running:
            codes[running.pop(pid)] = os.waitstatus_to_exitcode(status)
            tokens.give()
    outs = []
    for idx in range(len(specs)):
        items = []
        f = root / f"group{idx}.out"
        if f.exists():
            with open(f, "rb") as fh:
                while True:
                    try:
                        items.append(pickle.load(fh))
                    except EOFError:
                        break
        outs.append((codes.get(idx), items))
    return outs


def write_replay(check, result, tier, seed):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    body = {"property": check.ID, "seed": seed, "tier": tier, "key": result["key"], "message": result["message"],
            "facts": result.get("facts"), "config": result["config"], "plan": result["plan"],
            "trace": result.get("trace"), "traceback": result.get("traceback"), "digest": result.get("digest")}
    f = d / f"{check.ID}-{digest([result['config'], result['plan'], result['key']])}.json"
    f.write_text(json.dumps(body, indent=1, default=str))
    return f


def replay(check, path, world, tier):
    body = json.loads(pathlib.Path(path).read_text())
    root = pathlib.Path(tempfile.mkdtemp(prefix="simreplay"))
    try:
        base, bad = prepare_config(check, body["config"], root, world, body.get("tier", tier))
        r = bad or run_plan(check, base, body["plan"], root, world, body.get("tier", tier))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return body, r


def main(check, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--groups", help="only these group numbers (comma separated)")
    ap.add_argument("--plans", help="only these plan numbers of each group")
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--digests", help="write the digest of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep-going", action="store_true", help="do not stop at the first violation")
    args = ap.parse_args(argv)
    global KEEP_GOING
    KEEP_GOING = args.keep_going
    prop = check.ID
    t0 = time.monotonic()
    world = setup_world()

    if args.replay:
        body, r = replay(check, args.replay, world, args.tier)
        print(json.dumps({k: r.get(k) for k in ("status", "key", "message", "facts", "digest")}, default=str))
        if r.get("traceback"):
            print(r["traceback"])
        if args.verbose:
            for e in r.get("trace", []):
                print("  ", e)
        if r["status"] == "violation":
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        return 0 if r["status"] == "ok" else 2

    limit = 780 if args.tier == "quick" else 6 * 3600
    specs = check.groups(args.seed, args.tier)
    specs = json.loads(json.dumps(specs))  # plans are JSON, nothing else
    if args.groups:
        keep = [int(x) for x in args.groups.split(",")]
        specs = [specs[i] for i in keep]
    if args.plans:
        keep = [int(x) for x in args.plans.split(",")]
        for s in specs:
            s["plans"] = [s["plans"][i] for i in keep if i < len(s["plans"])]
    root = pathlib.Path(tempfile.mkdtemp(prefix=f"sim{prop}_"))
    world.memo_dir = root / "memo"
    world.memo_dir.mkdir()
    known = load_known(prop)
    print(f"{prop} tier={args.tier} seed={args.seed} groups={len(specs)} plans={sum(len(s['plans']) for s in specs)}", flush=True)
    try:
        outs = run_groups(check, specs, root, world, args.tier, known, t0 + limit, args.jobs)
    finally:
        shutil.rmtree(root, ignore_errors=True)

    results, errors, skipped, prep = [], [], 0, 0.0
    for idx, (code, items) in enumerate(outs):
        ended = False
        items.sort(key=lambda kv: kv[1].get("index", -1) if kv[0] == "result" else (-2 if kv[0] == "prepared" else 10**9))
        for kind, value in items:
            if kind == "prepared":
                prep += value
            elif kind == "result":
                value["group"] = idx
                results.append(value)
            elif kind == "skipped":
                skipped += value
            elif kind == "end":
                ended = True
        if code != 0 or not ended:
            errors.append(f"group {idx} ended with code {code}")
    violations = [r for r in results if r["status"] == "violation" and "known" not in r and r.get("plan") is not None or r["status"] == "violation" and r.get("plan") is None]
    knowns = {r["known"] for r in results if r.get("known")}
    errors += [f"group {r['group']}: {r['message']}" for r in results if r["status"] == "error"]
    wall = time.monotonic() - t0

    if args.digests:
        pathlib.Path(args.digests).write_text("\n".join(f"{r['group']} {r.get('digest')} {r['status']}" for r in results) + "\n")

    if not args.no_evidence:
        write_evidence(check, args, results, specs, wall, prep, skipped, len(violations), errors)
    by = collections.Counter(r["status"] for r in results)
    faults, probes = collections.Counter(), collections.Counter()
    for r in results:
        faults.update(r.get("faults") or {})
        probes.update(r.get("probes") or {})
    print(f"{prop} runs={dict(by)} skipped={skipped} wall={wall:.1f}s prepare={prep:.1f}s")
    if args.verbose:
        for idx in range(len(specs)):
            rs = [r.get("wall", 0) for r in results if r["group"] == idx]
            print(f"  group {idx}: {len(rs)} runs, {sum(rs):.1f}s, longest {max(rs, default=0):.1f}s")
    print(f"{prop} faults={dict(sorted(faults.items()))}")
    print(f"{prop} probes={dict(sorted(probes.items()))}")
    for k in known:
        if k["id"] in knowns:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    done = set()
    for v in violations:
        if KEEP_GOING:
            print(f"  group {v['group']} plan {v.get('index')}: {v['key']}: {v['message'][:600]}")
        if v["key"] in done:
            continue
        done.add(v["key"])
        f = write_replay(check, v, args.tier, args.seed)
        print(f"{prop} violation: {v['key']}: {v['message'][:1500]}")
        if v.get("traceback"):
            print(v["traceback"])
        again = subprocess.run([sys.executable, "-m", "sim.main", prop, "--replay", str(f)], cwd=VERIF, capture_output=True, text=True)
        print(f"{prop} replay in a fresh process: exit {again.returncode}")
        print(f"VIOLATION property={prop} replay={f}", flush=True)
    if done:
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR:", e)
        return 2
    if skipped:
        print(f"{prop} note: {skipped} planned runs did not fit into the time limit and were left out")
    if not any(r["status"] == "ok" for r in results) and not knowns:
        print("HARNESS ERROR: nothing was explored")
        return 2
    return 0


def write_evidence(check, args, results, specs, wall, prep, skipped, n_viol, errors):
    faults, probes = collections.Counter(), collections.Counter()
    for r in results:
        faults.update(r.get("faults") or {})
        probes.update(r.get("probes") or {})
    good = [r for r in results if r["status"] in ("ok", "violation")]
    evaluations = sum(r.get("evaluations", 0) for r in good)
    distinct = len({r["fingerprint"] for r in good if r.get("nontrivial") and r.get("fingerprint")})
    samples = [{"config": brief(specs[r["group"]]["config"]), "plan": r["sample"]} for r in results if r.get("sample")][:2]
    sim = sum(r.get("sim_seconds", 0.0) for r in good)
    ev = {
        "property": check.ID, "tier": args.tier, "seed": args.seed, "level": getattr(check, "MLEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": check.RULE,
            "method": check.LEVEL,
            "samples": samples or [{"none": True}],
            "simulated_runs": len(good),
            "runs_per_hour": round(len(good) / wall * 3600) if wall else 0,
            "configurations": len(specs),
            "solver_requests": sum(r.get("solves", 0) for r in good),
            "simulated_model_seconds_covered": sim,
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "events_recorded": sum(r.get("n_events", 0) for r in good),
            "distinct_measure": "distinct digests of the recorded event history (or of the state the check names)",
            "real_components": check.REAL,
            "stubbed_components": check.STUB,
            "skipped_runs": skipped,
            "harness_errors": len(errors),
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": n_viol,
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    tmp = d / f".{check.ID}.tmp"
    tmp.write_text(json.dumps(ev, indent=1, default=str))
    tmp.rename(d / f"{check.ID}.json")


def brief(config):
    s = json.dumps(config, default=str)
    return config if len(s) < 3000 else s[:3000] + "..."
