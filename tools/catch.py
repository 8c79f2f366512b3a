"""Runs each planted bug's property check on a patched copy of the repository and prints a table.
usage: catch.py [--seeds 1,2] [ID...]   (reads seeded/; no check does)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", "/verif/seeded")


def main():
    args = sys.argv[1:]
    seeds = ["1"]
    if args[:1] == ["--seeds"]:
        seeds = args[1].split(",")
        args = args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    print("| planted bug | check | caught (seeds " + ", ".join(seeds) + ") | seconds | violation |")
    print("|---|---|---|---|---|")
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        pid = meta["property"]
        d = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
        try:
            shutil.copytree("/repo/acetn", os.path.join(d, "acetn"))
            subprocess.run("git init -q . && git apply --unsafe-paths " + os.path.join(SEEDED, i, "patch.diff"), shell=True, cwd=d, check=True)
            res, secs, what = [], [], ""
            for s in seeds:
                t = time.time()
                p = subprocess.run(["./check", pid], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_SEED=s, VERIF_TIER="quick", DST_REPO=d))
                secs.append(time.time() - t)
                hit = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + pid)]
                res.append("yes" if p.returncode == 1 and hit else "NO" if p.returncode == 0 else f"rc {p.returncode}")
                if hit and not what:
                    rp = json.load(open(os.path.join(HERE, hit[0].split("replay=")[1].split()[0])))
                    what = str(rp.get("violation", rp.get("viol", {})).get("cls", ""))
            print(f"| {i} | {pid} | {', '.join(res)} | {max(secs):.0f} | {what} |", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
