"""check <property>: generate cases from VERIF_SEED, simulate them on a pool of forked
workers, minimise and record the first violation, write the evidence file."""
import argparse
import copy
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOW = time.monotonic


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def known_findings(pid):
    out = []
    try:
        lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    except FileNotFoundError:
        lines = []
    for l in lines:
        if not l.startswith("finding:"):
            continue
        parts = dict(p.split("=", 1) for p in l.split() if "=" in p and p.split("=")[0] in ("property", "class", "match"))
        if parts.get("property") == pid:
            out.append((parts.get("class"), parts.get("match", "").replace("%20", " "), l))
    return out


def match_known(known, viol):
    for cls, text, line in known:
        if viol["cls"] == cls and text in viol["msg"]:
            return line
    return None


def gen_case(prop, seed, i, tier):
    rng = random.Random(f"{prop.ID}:{seed}:{i}")
    pinned = getattr(prop, "PINNED", [])
    # the cases behind known findings come first, whatever the seed
    case = copy.deepcopy(pinned[i]) if i < len(pinned) else prop.gen(rng, i, tier)
    case.setdefault("seed", rng.randrange(1 << 31))
    case["id"] = f"{prop.ID}/{seed}/{i}"
    return case


# ---- worker pool -------------------------------------------------------------
class Worker:
    def __init__(self, prop):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                _serve(prop, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        self.job = None
        self.started = None

    def give(self, job):
        self.job, self.started = job, NOW()
        os.write(self.w, (json.dumps(job["case"]) + "\n").encode())

    def kill(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def _serve(prop, r, w):
    import torch
    torch.set_num_threads(1)
    from . import core
    # a terminal's Ctrl-C ends the pool through the parent
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    f = os.fdopen(r, "rb")
    out = os.fdopen(w, "wb")
    n = 0
    while True:
        line = f.readline()
        if not line:
            return
        case = json.loads(line)
        try:
            t = NOW()
            o = core.run_case(prop, case).as_dict()
            o["wall"] = NOW() - t
        except BaseException:
            o = {"error": traceback.format_exc()}
        out.write((json.dumps(o) + "\n").encode())
        out.flush()
        n += 1


class Pool:
    def __init__(self, prop, n, timeout):
        self.prop, self.n, self.timeout = prop, n, timeout
        self.ws = []

    def run(self, jobs, on_result, deadline=None):
        """jobs: iterator of {"case":..., ...}. on_result(job, outcome) -> False to stop."""
        jobs = iter(jobs)
        stopping = False
        exhausted = False
        while True:
            while not stopping and not exhausted:
                idle = [w for w in self.ws if w.job is None]
                if not idle and len(self.ws) < self.n:
                    idle = [Worker(self.prop)]
                    self.ws.append(idle[0])
                if not idle:
                    break
                if deadline is not None and NOW() > deadline:
                    exhausted = True
                    break
                job = next(jobs, None)
                if job is None:
                    exhausted = True
                    break
                idle[0].give(job)
            busy = [w for w in self.ws if w.job is not None]
            if not busy:
                return
            ready, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in busy:
                o = None
                if w.r in ready:
                    data = os.read(w.r, 1 << 20)
                    if not data:
                        o = {"error": f"worker died in {w.job['case'].get('id')}"}
                    else:
                        w.buf += data
                        if b"\n" in w.buf:
                            o = json.loads(w.buf)
                            w.buf = b""
                        else:
                            continue
                    dead = not data
                elif NOW() - w.started > self.timeout:
                    o = {"hang": True, "viol": {"cls": "hang", "msg": f"no end after {self.timeout} s of real time"},
                         "choices": None}
                    dead = True
                else:
                    continue
                job, w.job = w.job, None
                if dead:
                    w.kill()
                    self.ws.remove(w)
                if on_result(job, o) is False:
                    stopping = True

    def close(self):
        for w in self.ws:
            w.kill()
        self.ws = []


# ---- reporting -------------------------------------------------------------------
def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def save_replay(pid, case, viol, seed, note):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    from .core import sig_of
    path = os.path.join(d, f"{pid}-{sig_of(case)}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "violation": viol, "case": case, "note": note}, f, indent=1)
    return path


def replay(prop, path):
    d = json.load(open(path))
    pool = Pool(prop, 1, prop.PLAN["case_timeout"])
    res = []
    pool.run([{"case": d["case"]}], lambda j, o: res.append(o))
    pool.close()
    return d, res[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="run only this case index, in this process")
    ap.add_argument("--n", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--digests", help="write per-case event-log digests to this file")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = NOW()
    import torch
    torch.set_num_threads(1)
    prop = load_prop(a.property)
    pid = prop.ID
    if getattr(prop, "SHIM", False):
        from . import fs
        fs.ensure_preloaded()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        d, o = replay(prop, a.replay)
        if o.get("error"):
            print(o["error"])
            return 2
        if o.get("viol"):
            print(f"{o['viol']['cls']}: {o['viol']['msg']}")
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print(f"{pid}: the replayed case holds")
        return 0
    if a.case is not None:
        from . import core
        case = gen_case(prop, a.seed, a.case, tier)
        print(json.dumps(case))
        t = NOW()
        o = core.run_case(prop, case).as_dict()
        print({k: (v if k != "choices" else (len(v) if v else v)) for k, v in o.items()}, f"{NOW() - t:.2f}s")
        return 1 if o["viol"] else 0

    plan = dict(prop.PLAN)
    n = a.n or plan[tier]
    wall = plan.get("wall_" + tier, 420 if tier == "quick" else 6 * 3600)
    known = known_findings(pid)
    st = {"done": 0, "sigs": set(), "fired": {}, "probes": {}, "sim_s": 0.0, "steps": 0, "trivial": 0, "errors": [],
          "viols": [], "known": {}, "samples": [], "wall_cases": 0.0, "digests": {}}

    def on_result(job, o):
        if o.get("error"):
            st["errors"].append((job["i"], o["error"]))
            return False
        st["done"] += 1
        if o.get("viol"):
            line = match_known(known, o["viol"])
            if line:
                st["known"][line] = st["known"].get(line, 0) + 1
            else:
                st["viols"].append((job["i"], job["case"], o))
                return False
        if o.get("hang"):
            return None
        st["wall_cases"] += o["wall"]
        merge(st["fired"], o["fired"])
        merge(st["probes"], o["probes"])
        st["sim_s"] += o["sim_s"]
        st["steps"] += o["steps"]
        st["digests"][job["i"]] = o["log"]
        if o["trivial"]:
            st["trivial"] += 1
        else:
            st["sigs"].add(o["sig"])
            if len(st["samples"]) < 3:
                st["samples"].append({"case": job["case"], "sig": o["sig"], "fired": o["fired"]})
        return None

    def jobs():
        for i in range(n):
            yield {"i": i, "case": gen_case(prop, a.seed, i, tier)}

    if hasattr(prop, "prepare"):
        prop.prepare()
    pool = Pool(prop, a.workers, plan["case_timeout"])
    pool.run(jobs(), on_result, t0 + wall)
    pool.close()
    if a.digests:
        json.dump(st["digests"], open(a.digests, "w"), indent=0, sort_keys=True)

    rc = 0
    path = None
    if st["viols"]:
        i, case, o = min(st["viols"], key=lambda v: v[0])
        viol = o["viol"]
        if o.get("choices") is not None:
            case = dict(case, choices=o["choices"])
        single = Pool(prop, 1, min(plan["case_timeout"], 120))

        def runner(c):
            res = []
            single.run([{"case": c}], lambda j, x: res.append(x))
            return res[0]
        from . import core
        small, tried = case, 0
        if viol["cls"] != "hang":
            budget = plan.get("shrink_s", 45 if tier == "quick" else 600)
            small, tried = core.minimise(prop, case, viol["cls"], NOW() + budget, NOW, runner)
        final = runner(small)
        single.close()
        v2 = final.get("viol") or viol
        path = save_replay(pid, small, v2, a.seed, f"case {i} of seed {a.seed}; {tried} smaller variants tried")
        print(f"{pid}: case {i}: {v2['cls']}: {v2['msg']}")
        p = subprocess.run([os.path.join(HERE, "check"), pid, "--replay", path], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_TIER=tier))
        if p.returncode != 1 and small is not case:
            path = save_replay(pid, case, viol, a.seed, f"case {i} of seed {a.seed}, not minimised")
            p = subprocess.run([os.path.join(HERE, "check"), pid, "--replay", path], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_TIER=tier))
        if p.returncode != 1:
            print("the violation did not reproduce from its replay file:\n" + p.stdout[-2000:] + p.stderr[-2000:])
            rc = 2
        else:
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
    elif st["errors"]:
        i, e = st["errors"][0]
        print(f"{pid}: harness error in case {i}:\n{e}")
        rc = 2
    elif st["done"] < n and st["done"] < max(1, n // 10):
        print(f"{pid}: only {st['done']} of {n} cases ran within {wall} s")
        rc = 2
    for line, cnt in st["known"].items():
        print(f"KNOWN-FINDING: property={pid} {line.split('text=', 1)[-1]} ({cnt} cases)")

    wall_s = NOW() - t0
    per_h = st["done"] / max(wall_s, 1e-9) * 3600
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": st["done"],
            "distinct_nontrivial": len(st["sigs"]),
            "rule": prop.RULE,
            "samples": st["samples"] or [{"case": gen_case(prop, a.seed, 0, tier)}],
            "planned_cases": n,
            "trivial_cases": st["trivial"],
            "simulated_runs_per_hour": round(per_h),
            "seeds_per_hour": round(per_h),
            "simulated_seconds": round(st["sim_s"], 3),
            "scheduling_decisions_and_operations": st["steps"],
            "faults_injected": st["fired"],
            "probes": st["probes"],
            "distinct_measure": getattr(prop, "DISTINCT", "signature of the history and interleaving of a run"),
            "components_real": prop.REAL,
            "components_stubbed": prop.STUB,
            "known_findings_met": {k: v for k, v in st["known"].items()},
        },
        "assumptions": prop.ASSUME,
        "wall_s": round(wall_s, 2),
        "violations": len(st["viols"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {st['done']}/{n} cases, {len(st['sigs'])} distinct, {wall_s:.1f} s, faults {st['fired']}, "
          f"probes {st['probes']}, violations {len(st['viols'])}")
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
