"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib
import json
import pathlib
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
PURE = ("a pure function of its input: no schedule, clock, I/O, fault or history can influence it, so there is nothing for a simulator to decide; "
        "input enumeration or proof would be another technique")
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "sim" / "checks" / f"{i.lower()}.py"
    if f.exists():
        m = importlib.import_module(f"sim.checks.{i.lower()}")
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                       "level": getattr(m, "MLEVEL", "exploration"), "level_note": m.LEVEL})
    elif int(i[1:]) >= 30:
        na.append({"property": i, "reason": PURE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
head = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [x.split()[0] for x in head if " hook:" in x]
out = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "CALLIOPE_SIM", "enable": "not needed: every seam is outside /repo", "source_commits": hooks},
       "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
