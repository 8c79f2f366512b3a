"""Writes MANIFEST.json from the property modules that exist (run by hand)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "P01": "Pure functions of in-memory matrices: no concurrency, time, I/O, fault or multi-party behaviour that a simulated "
           "schedule or fault could change; plain property-based testing would decide it, which is another technique.",
    "G01": "Needs the compiled CUDA extension and a GPU, neither of which exists in this sandbox; without them only the "
           "fallback runs, and there is no schedule, clock or fault in a single solver call to simulate.",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    try:
        m = importlib.import_module("dst.props." + pid.lower())
    except ModuleNotFoundError:
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
        "technique": getattr(m, "TECHNIQUE", "deterministic simulation with fault injection, seeded search"),
        "level": m.LEVEL,
        "level_note": m.NOTE,
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (torch.distributed, clocks, environment, console, file system calls, tensor "
                    "operations, random generators, memory contents) is taken from outside. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
