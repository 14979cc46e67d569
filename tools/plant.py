"""Make and confirm planted bugs.

plant.py make      write seeded/<id>/patch.diff and meta.json for the bugs in tools/bugs.py (demo files are written by hand)
plant.py confirm ID...   build, stable tests and demo.sh with and without the patch, in a scratch copy
plant.py catch ID [CXX]  run the check of the bug's property (or another) against the patched copy

The scratch copy is shown at /repo in a mount namespace of its own, so the real /repo is never touched.
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
TMP = pathlib.Path("/tmp/plant")


def scratch(name):
    p = TMP / name
    if p.exists():
        shutil.rmtree(p)
    TMP.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(p)], check=True)
    return p


def inside(copy, command, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {command}"], capture_output=True, text=True, **kw)


def make(only=None):
    sys.path.insert(0, str(VERIF / "tools"))
    from bugs import BUGS
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        p = scratch("make-" + b["id"])
        for f, old, new in b["edits"]:
            path = p / "src/calliope" / f
            s = path.read_text()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            path.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", str(p), "diff"], capture_output=True, text=True, check=True).stdout
        out = SEEDED / b["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps({k: b[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
        shutil.rmtree(p)


def confirm(i, tests=True):
    p = scratch("confirm-" + i)
    d = SEEDED / i
    res = {}
    demo = TMP / ("demo-" + i)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = inside(p, f"bash {demo}/demo.sh")
    res["demo unchanged"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    subprocess.run(["git", "-C", str(p), "apply", str(d / "patch.diff")], check=True)
    r = inside(p, "bash /opt/vp/build.sh")
    res["build"] = r.returncode
    r = inside(p, f"bash {demo}/demo.sh")
    res["demo patched"] = r.returncode
    print(r.stdout[-300:], r.stderr[-300:])
    if tests:
        r = inside(p, f"bash /opt/vp/test.sh {TMP}/out-{i}.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open(TMP / f"out-{i}.json"))
        stable = base.get("stable") or base.get("passed") or base
        passed = set(out.get("passed", []))
        res["tests failing"] = sorted(set(stable) - passed)[:5]
    print(i, res, flush=True)
    shutil.rmtree(p)
    shutil.rmtree(demo)
    return res


def catch(i, check=None, extra=()):
    d = SEEDED / i
    check = check or json.loads((d / "meta.json").read_text())["property"]
    p = scratch("catch-" + i)
    subprocess.run(["git", "-C", str(p), "apply", str(d / "patch.diff")], check=True)
    r = inside(p, f"cd {VERIF} && ./check {check} --no-evidence {' '.join(extra)}", errors="replace")
    lines = [x for x in (r.stdout + r.stderr).splitlines() if x.startswith("VIOLATION") or "HARN" in x or x.startswith("C")]
    print(i, check, "exit", r.returncode, *[x[:300] for x in lines[-6:]], sep="\n   ", flush=True)
    shutil.rmtree(p)


if __name__ == "__main__":
    cmd, *args = sys.argv[1:]
    if cmd == "make":
        make(args)
    elif cmd == "confirm":
        for a in args:
            confirm(a)
    elif cmd == "demo":
        for a in args:
            confirm(a, tests=False)
    elif cmd == "catch":
        catch(args[0], *args[1:2], extra=args[2:])
