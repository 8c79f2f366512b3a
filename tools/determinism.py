"""Runs checks twice (other number of workers, other hash seed) and compares what every case saw.
usage: determinism.py [cases] [ID...]"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, n, workers, hashseed, out):
    env = dict(os.environ, DST_HASHSEED=hashseed, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    p = subprocess.run(["./check", pid, "--n", str(n), "--workers", str(workers), "--digests", out], cwd=HERE, env=env,
                       capture_output=True, text=True)
    return p.returncode, json.load(open(out)), p.stdout


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    ids = sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    bad = 0
    with tempfile.TemporaryDirectory(prefix="det-") as d:
        for pid in ids:
            a = run(pid, n, 8, "0", os.path.join(d, "a"))
            b = run(pid, n, 3, "77", os.path.join(d, "b"))
            diff = sorted((int(i) for i in a[1] if a[1][i] != b[1].get(i)), key=int) if a[1] != b[1] else []
            ok = a[0] == b[0] == 0 and not diff and len(a[1]) == len(b[1])
            bad += not ok
            print(f"{pid}: {len(a[1])} cases, " + ("equal" if ok else f"DIFFERENT exit {a[0]}/{b[0]} cases {diff[:10]}"), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
