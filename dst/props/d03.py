"""D03: distributed operations always complete or fail loudly."""
import copy

from .. import faults as F
from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of

ID = "D03"
LEVEL = "fault_enumeration"
NOTE = ("Seeded enumeration of fault sites (collective or torch call of one rank) and schedules on the real code; completion, failure propagation and correctness of everything that did complete are checked. Trusts simdist's model of lost peers.")
PLAN = {"quick": 110, "thorough": 15000, "case_timeout": 400}
RULE = ("A case is a random unit cell, number of ranks and operation list under a random schedule; without fault "
        "(no deadlock, every collective matches on all ranks, every rank completes), or with one fault at a random "
        "collective or torch call of one rank: the process dies, the call raises, or the rank stalls longer than the "
        "communication timeout. Then every rank ends, the failing rank and every rank that met the failure raise, and "
        "every operation that did complete gives the result of the fault-free run. Non-trivial: the fault struck, or "
        "(fault-free) collectives ran.")
DISTINCT = "hash of (configuration, operations, fault site, order in which ranks ran)"
REAL = ["all of acetn, one private module copy per rank", "torch kernels"]
STUB = ["torch.distributed (simdist: matching checks, connection loss, timeouts)", "os.cpu_count", "clocks", "console",
        "environment", "process death (the rank's tasks are never scheduled again)"]
ASSUME = ["a lost peer shows up as an error at the next collective that needs it, as with gloo over TCP",
          "the user's script ends at the first error of its rank"]


def gen(rng, i, tier):
    big = tier == "thorough"
    kind = rng.choice(["clean", "clean", "kill", "kill", "raise", "torch", "torch", "longstall", "fewcpus"])
    c = O.rand_cfg(rng, nmax=3 if not big else 5, nmin=1 if rng.random() < 0.25 else 2, chis=(4, 6), steps=(1, 2))
    ws = rng.choice([2, 3, 4, 5, 6, 7, 8, 9]) if kind == "clean" else rng.choice([2, 3, 4, 5])
    ops = []
    evolve = rng.random() < 0.7
    if not evolve:
        c["nx"], c["ny"] = rng.randint(1, 4), rng.randint(1, 4)
    for k in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.35:
            ops.append(["renorm"])
        elif x < 0.7:
            ops.append(["evolve", 0.05, 1] if evolve else ["renorm"])
        elif x < 0.8:
            ops.append(["chi", rng.choice([3, 5, 7])])
        elif x < 0.9:
            ops.append(["fork", f"o{k}"])
        else:
            ops.append(["measure"])
    ops.append(["measure"])
    case = {"kind": kind, "cfg": c, "ws": ws, "ops": ops, "rng": [rng.randrange(1 << 30) for _ in range(ws)],
            "sticky": rng.choice([0.0, 0.5, 0.9]),
            "stalls": [[rng.randrange(ws), rng.randint(1, 80), rng.choice([5.0, 300.0])] for _ in range(rng.randint(0, 3))]}
    if kind in ("kill", "raise", "torch", "longstall"):
        case["fault"] = {"rank": rng.randrange(ws), "frac": rng.random() ** 1.5,
                         "exc": rng.choice(["oom", "alloc", "interrupt", "memory"]), "secs": rng.choice([1801.0, 5000.0])}
        if rng.random() < 0.2:
            case["fault"]["frac"] = 0.0
    return case


def execute(case, out, faulty, totals=None, want_counts=False):
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), case["rng"], sticky=case["sticky"],
                 cpu_count=case["ws"] - 1 if case["kind"] == "fewcpus" else 64)
    f = case.get("fault")
    for r, n, s in case["stalls"]:
        cl.kernel.stalls[(r, n)] = s
    plan = None
    if faulty and f:
        n = 1 + int(f["frac"] * max(0, totals[f["rank"]][0 if case["kind"] != "torch" else 1] - 1))
        if case["kind"] == "kill":
            cl.dist.kills[(f["rank"], n)] = {"kind": "kill"}
        elif case["kind"] == "raise":
            cl.dist.kills[(f["rank"], n)] = {"kind": "raise", "exc": lambda: RuntimeError("Connection reset by peer (injected)")}
        elif case["kind"] == "longstall":
            cl.dist.kills[(f["rank"], n)] = {"kind": "stall", "seconds": f["secs"]}
        else:
            plan = F.at(n, f["exc"])
    counters = {}

    def body(r):
        m = F.Counter(plan if f and r.rank == f["rank"] else None)
        counters[r.rank] = m
        r.driver = d = O.Driver(r.proc, case["cfg"])
        for op in [["create"]] + case["ops"]:
            rec = {"op": op, "value": None, "done": False, "errs": 0}
            r.records.append(rec)
            e0 = cl.dist.errors.get(r.rank, 0) + len(m.raised)
            with m:
                rec["value"] = d.do(op)
            rec["snap"] = work.snap(d.ip)
            rec["done"] = True
            rec["errs"] = cl.dist.errors.get(r.rank, 0) + len(m.raised) - e0
    try:
        guarded(lambda: cl.run(body), "faulty run" if faulty else "fault-free run")
    finally:
        if not want_counts:
            cl.finish(out)
    for m in counters.values():
        if m.raised:
            out.count("raise." + case["fault"]["exc"])
    return cl, {r: (cl.dist.nops.get(r, 0), counters[r].n if r in counters else 0) for r in range(case["ws"])}


def run(case, out):
    kind = case["kind"]
    out.sig = ""
    if kind in ("clean", "fewcpus"):
        cl, _ = execute(case, out, False)
        if kind == "fewcpus":
            out.count("too-few-devices")
            done = [r.rank for r in cl.ranks if r.error is None]
            if done and len(done) < case["ws"]:
                raise Violation("split", f"with {case['ws'] - 1} devices for {case['ws']} ranks, ranks {done} succeed and the others fail")
            for r in cl.ranks:
                if r.error is not None and not isinstance(r.error, (RuntimeError, ValueError)):
                    raise Violation("error-type", f"rank {r.rank}: {type(r.error).__name__}: {r.error}")
        else:
            for r in cl.ranks:
                if r.error is not None:
                    raise Violation("rank-error", f"rank {r.rank} of {case['ws']} failed in "
                                    f"{r.records[-1]['op'] if r.records else 'start'}: {type(r.error).__name__}: {r.error}")
        out.trivial = not out.probes and kind != "fewcpus"
        out.sig = sig_of(case["cfg"], case["ops"], case["ws"], cl.kernel.sig)
        return
    base, totals = execute(dict(case, choices=[]), out, False, want_counts=True)
    for r in base.ranks:
        if r.error is not None:
            raise Violation("rank-error", f"rank {r.rank} of {case['ws']} failed without fault in "
                            f"{r.records[-1]['op'] if r.records else 'start'}: {type(r.error).__name__}: {r.error}")
    cl, _ = execute(case, out, True, totals)
    f = case["fault"]
    out.trivial = not out.fired
    struck = bool(set(out.fired) - {"stall"})
    where = f"{kind} of rank {f['rank']} of {case['ws']} in operation {len(cl.ranks[f['rank']].records) - 1}"
    out.sig = sig_of(case["cfg"], case["ops"], case["ws"], f, cl.kernel.sig)
    victim = cl.ranks[f["rank"]]
    if struck and kind in ("raise", "torch") and victim.error is None:
        raise Violation("swallowed", f"{where}: the failing rank itself reported nothing")
    for r in cl.ranks:
        for i, rec in enumerate(r.records):
            if not rec["done"]:
                continue
            if rec["errs"]:
                raise Violation("swallowed", f"{where}: rank {r.rank} completed operation {i} {rec['op']} although its communication failed")
            ref = base.ranks[r.rank].records[i]
            p = work.diff(rec["snap"], ref["snap"], 1e-9)
            if p is None and isinstance(rec["value"], dict):
                p = work.diff_meas(rec["value"], ref["value"], 1e-9)
            if p:
                raise Violation("wrong-result", f"{where}: rank {r.rank} completed operation {i} {rec['op']} with another result "
                                f"than without the failure: {p}")
        if r.error is None and not r.proc.dead and len([x for x in r.records if x["done"]]) != len(case["ops"]) + 1:
            raise Violation("silent", f"{where}: rank {r.rank} ended early without an error")


def shrinks(case):
    if case["ws"] > 2:
        c = copy.deepcopy(case)
        c["ws"] -= 1
        c["rng"] = c["rng"][:c["ws"]]
        c["stalls"] = [s for s in c["stalls"] if s[0] < c["ws"]]
        c["choices"] = []
        if "fault" in c:
            c["fault"]["rank"] = min(c["fault"]["rank"], c["ws"] - 1)
        yield c
    for k in ("nx", "ny"):
        if case["cfg"][k] > 2:
            c = copy.deepcopy(case)
            c["cfg"][k] -= 1
            c["choices"] = []
            yield c
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][j]
        yield c
    if case["stalls"]:
        yield dict(copy.deepcopy(case), stalls=[])
