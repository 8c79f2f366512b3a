"""D01: all ranks hold the same tensors and report the same measurements."""
from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of

ID = "D01"
LEVEL = "exploration"
NOTE = ("Seeded search over schedules, rank counts and histories on the real code with a simulated process group; a violation is exact and replayable, absence is exploration only. Trusts simdist to reproduce gloo (tools/conformance.py compares them).")
PLAN = {"quick": 150, "thorough": 20000, "case_timeout": 300}
RULE = ("A case is a random unit cell, configuration, model and list of operations run by 2-6 simulated ranks whose "
        "random generators start differently and whose relative speed (who runs between two collectives, stalls) is "
        "drawn from the seed; after every operation all tensors and measured values of all ranks are compared. "
        "Non-trivial: at least one collective carried data and two ranks were compared after it.")
DISTINCT = "hash of (configuration, operations, order in which ranks ran)"
REAL = ["all of acetn, one private module copy per rank", "torch kernels", "scratch file system for save/load"]
STUB = ["torch.distributed collectives and process groups (simdist, gloo semantics)", "os.cpu_count", "clocks",
        "console", "environment variables", "one torch/numpy/python random generator per rank"]
ASSUME = ["simdist reproduces gloo (compared by tools/conformance.py)",
          "every rank runs the same torch kernels; differences between devices are outside"]
TOL = 1e-9


def gen(rng, i, tier):
    big = tier == "thorough"
    c = O.rand_cfg(rng, nmax=3 if not big else 4, nmin=1 if rng.random() < 0.4 else 2, chis=(4, 6, 8), steps=(1, 2), Ds=(2, 2, 2, 3) if big else (2,))
    ws = rng.choice([2, 2, 3, 4, 5, 6] + ([7, 8] if big else []))
    ops, saved = [], []
    n = rng.randint(1, 5 if not big else 8)
    for k in range(n):
        x = rng.random()
        if x < 0.25:
            ops.append(["renorm"])
        elif x < 0.5:
            ops.append(["evolve", rng.choice([0.01, 0.05, 0.2]), rng.choice([1, 1, 2])])
        elif x < 0.62:
            ops.append(["measure"])
        elif x < 0.72:
            ops.append(["chi", rng.choice([3, 5, 7, 9])])
        elif x < 0.8:
            ops.append(O.rand_param_change(rng, c))
        elif x < 0.9:
            saved.append(f"f{k}.pt")
            ops.append([rng.choice(["save", "save0"]), saved[-1]])
            if ops[-1][0] == "save0":
                ops.append(["renorm"])
        elif saved:
            ops.append(["load", rng.choice(saved)])
        else:
            ops.append(["fork", f"o{k}"])
    ops.append(["measure"])
    return {"cfg": c, "ws": ws, "ops": ops, "rng": [rng.randrange(1 << 30) for _ in range(ws)],
            "stalls": [[rng.randrange(ws), rng.randint(1, 60), rng.choice([1.0, 60.0, 900.0])]
                       for _ in range(rng.randint(0, 4))],
            "sticky": rng.choice([0.0, 0.5, 0.9]), "state": rng.random() < 0.3, "sseed": rng.randrange(1 << 30)}


def run(case, out):
    c = case["cfg"]
    A = work.random_state(c, case["sseed"]) if case["state"] else None
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), case["rng"], sticky=case["sticky"])
    for r, n, s in case["stalls"]:
        cl.kernel.stalls[(r, n)] = s
    with O.scratch() as d:
        try:
            guarded(lambda: cl.run_ops(c, case["ops"], A, d), "distributed run")
        finally:
            cl.finish(out)
    compare(cl, out)
    out.sig = sig_of(c["nx"], c["ny"], case["ops"], case["ws"], cl.kernel.sig)
    out.trivial = not any(k.startswith("collective.all_gather") or k == "collective.broadcast" for k in out.probes)


def compare(cl, out):
    for r in cl.ranks:
        if r.error is not None:
            raise Violation("rank-error", f"rank {r.rank} failed in {r.records[-1]['op'] if r.records else 'start'}: "
                            f"{type(r.error).__name__}: {r.error}")
    r0 = cl.ranks[0]
    for r in cl.ranks[1:]:
        if len(r.records) != len(r0.records):
            raise Violation("length", f"rank {r.rank} completed {len(r.records)} operations, rank 0 {len(r0.records)}")
    for i, rec in enumerate(r0.records):
        out.note((i, work.digest(rec["snap"])))
        for r in cl.ranks[1:]:
            x = r.records[i]
            p = work.diff(x["snap"], rec["snap"], TOL)
            if p:
                raise Violation("tensors:" + rec["op"][0], f"after operation {i} {rec['op']}, rank {r.rank} differs from rank 0: {p}")
            if isinstance(rec["value"], dict):
                p = work.diff_meas(x["value"], rec["value"], 1e-9)
                if p:
                    raise Violation("values:" + rec["op"][0], f"operation {i} {rec['op']}: rank {r.rank} and rank 0 report {p}")


def shrinks(case):
    import copy
    if case["ws"] > 2:
        c = copy.deepcopy(case)
        c["ws"] = 2
        c["rng"] = c["rng"][:2]
        c["stalls"] = [s for s in c["stalls"] if s[0] < 2]
        c["choices"] = []
        yield c
    for k in ("nx", "ny"):
        if case["cfg"][k] > 2:
            c = copy.deepcopy(case)
            c["cfg"][k] = 2
            c["choices"] = []
            yield c
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        name = c["ops"][j]
        del c["ops"][j]
        if name[0] in ("save", "save0"):
            c["ops"] = [o for o in c["ops"] if not (o[0] == "load" and o[1] == name[1])]
        yield c
    if case["stalls"]:
        c = copy.deepcopy(case)
        c["stalls"] = []
        yield c
