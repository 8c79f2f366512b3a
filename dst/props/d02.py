"""D02: a distributed run computes what a single process computes."""
import copy

from .. import ops as O
from .. import solo as S
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of

ID = "D02"
LEVEL = "exploration"
NOTE = ("Seeded search comparing distributed runs with an independent single-process execution of the same simultaneous moves (1e-9) or with an ordinary run (boundary truncation). Trusts simdist and, for the reference, the serial moves decided by M02.")
PLAN = {"quick": 100, "thorough": 12000, "case_timeout": 400}
RULE = ("A case is a random unit cell, configuration, state and operation list run by 2-7 simulated ranks under a "
        "random schedule and, as reference, by one process: in mode 'exact' (full-rank SVD) the reference performs "
        "left-right and up-down moves simultaneously and every tensor, or else every density matrix computed from "
        "them, must agree after every operation; in mode 'physical' the reference is an ordinary single-process run "
        "and converged density matrices and energies must agree to the boundary truncation. Non-trivial: the ranks "
        "exchanged at least one projector or state.")
DISTINCT = "hash of (mode, configuration, operations, number of ranks, order in which ranks ran)"
REAL = ["all of acetn, one private module copy per rank and one for the reference process", "torch kernels"]
STUB = ["torch.distributed (simdist, gloo semantics)", "os.cpu_count", "clocks", "console", "environment",
        "per-rank random generators"]
ASSUME = ["the reference uses the serial moves of the same tree; their own correctness is decided by M02",
          "physical comparisons use weakly entangled states whose boundary truncation error is far below the tolerance"]


def gen(rng, i, tier):
    big = tier == "thorough"
    mode = rng.choice(["exact", "exact", "exact", "physical"])
    c = O.rand_cfg(rng, nmax=3 if not big else 4, chis=(4, 6, 8) if mode == "exact" else (12,), steps=(1, 2))
    ws = rng.choice([2, 3, 4, 5, 6, 7])
    if mode == "exact":
        c["svd_type"] = "full-rank"
        ops = []
        for k in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.3:
                ops.append(["dmove", rng.choice(["lr", "ud"]), rng.randrange(4), rng.randrange(4)])
            elif x < 0.55:
                ops.append(["renorm"])
            elif x < 0.85:
                if rng.random() < 0.4:
                    ops.append(["steps", 0])
                ops.append(["evolve", rng.choice([0.02, 0.1, 0.3]), 1])
            elif x < 0.93:
                ops.append(["chi", rng.choice([3, 5, 9])])
            else:
                ops.append(O.rand_param_change(rng, c))
        ops.append(["measure"])
        if rng.random() < 0.25 and any(o[0] == "renorm" or o[0] == "dmove" for o in ops):
            for k in ("nx", "ny"):
                if rng.random() < 0.5:
                    c[k] = 1
    else:
        c["steps"] = 8
        ops = [["renorm"]]
        if rng.random() < 0.5:
            c["model"] = {"name": "ising", "params": {"jz": 1.0, "hx": round(rng.uniform(2.0, 3.5), 2)}}
            c["phys"] = 2
            ops += [["evolve", 0.05, 2]]
        else:
            c["nx"], c["ny"] = rng.randint(1, 3), rng.randint(1, 3)
        ops += [["measure"]]
        ws = rng.choice([2, 3, 4])
    return {"mode": mode, "cfg": c, "ws": ws, "ops": ops, "rng": [rng.randrange(1 << 30) for _ in range(ws)],
            "sticky": rng.choice([0.0, 0.7]), "sseed": rng.randrange(1 << 30),
            "eps": rng.choice([0.3, 0.5]) if mode == "exact" else rng.choice([0.15, 0.25])}


def run(case, out):
    c, mode = case["cfg"], case["mode"]
    A = work.random_state(c, case["sseed"], eps=case["eps"])
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), case["rng"], sticky=case["sticky"])
    rd = {}

    def body(r):
        r.driver = d = O.Driver(r.proc, c, A)
        for op in [["create"]] + case["ops"]:
            rec = {"op": op, "value": None}
            r.records.append(rec)
            rec["value"] = d.do(op)
            rec["snap"] = work.snap(d.ip)
        if r.rank == 0 and mode == "physical":
            rd[0] = work.rdms(r.proc, d.ip)
    try:
        guarded(lambda: cl.run(body), "distributed run")
    finally:
        cl.finish(out)
    for r in cl.ranks:
        if r.error is not None:
            raise Violation("rank-error", f"rank {r.rank} failed in {r.records[-1]['op'] if r.records else 'start'}: "
                            f"{type(r.error).__name__}: {r.error}")
    ref_ops = []
    for op in case["ops"]:
        if op[0] == "dmove":
            ref_ops += [["move", "left" if op[1] == "lr" else "up", op[2]], ["move", "right" if op[1] == "lr" else "down", op[3]]]
        else:
            ref_ops.append(op)
    ref = S.Solo(c, ref_ops, case["rng"][0], A, patch=S.jacobi if mode == "exact" else None)
    ref.run(keep=True)
    rr = list(ref.records)
    for i, rec in enumerate(cl.ranks[0].records):
        b = rr.pop(0)
        if rec["op"][0] == "dmove":
            b = rr.pop(0)
        out.note(work.digest(rec["snap"]))
        if mode == "exact":
            if i and not ref.proc.jacobi_calls and rec["op"][0] in ("renorm", "evolve"):
                out.probe("reference-not-simultaneous")
                break
            exact(case, out, i, rec, b, ref.proc)
    with ref.proc:
        if mode == "physical":
            evolved = any(o[0] == "evolve" for o in case["ops"])
            rdm = work.rdms(ref.proc, ref.driver.ip)
            tol = 1e-5 if evolved else 1e-7
            p = work.diff_rdm(rd[0], rdm, tol)
            out.probe("physical.evolved" if evolved else "physical.renormalized")
            if p:
                raise Violation("physical:" + ("evolve" if evolved else "renorm"), f"distributed and single-process run: {p}")
            p = work.diff_meas(cl.ranks[0].records[-1]["value"], ref.records[-1]["value"], 20 * tol)
            if p:
                raise Violation("physical:values", p)
        ref.driver.ip = None
    out.sig = sig_of(mode, c, case["ops"], case["ws"], cl.kernel.sig)
    out.trivial = not any(k in ("collective.all_gather", "collective.broadcast") for k in out.probes)


def exact(case, out, i, rec, b, proc):
    where = f"after operation {i} {rec['op']} on {case['ws']} ranks"
    p = work.diff(rec["snap"], b["snap"], 1e-9)
    if p:
        # not the same tensors; the same state and boundary in another gauge is allowed
        out.probe("gauge-comparison")
        q = gauge_diff(case["cfg"], proc, rec["snap"], b["snap"])
        if q:
            raise Violation("exact:" + rec["op"][0], f"{where}: {p}; {q}")
    if isinstance(rec["value"], dict):
        p = work.diff_meas(rec["value"], b["value"], 1e-6)
        if p:
            raise Violation("exact:measure", f"{where}: {p}")


def gauge_diff(c, proc, s1, s2):
    r = []
    with proc:
        for s in (s1, s2):
            ip = work.new_network(proc, c)
            for site, (A, C, E) in s.items():
                ip[site]["A"], ip[site]["C"], ip[site]["E"] = A, C, E
            try:
                r.append(work.rdms(proc, ip))
            except Exception as e:
                return f"density matrices cannot be computed: {e}"
            del ip
    return work.diff_rdm(r[0], r[1], 1e-6)


def shrinks(case):
    for ws in (2, 3):
        if ws < case["ws"]:
            c = copy.deepcopy(case)
            c["ws"], c["rng"], c["choices"] = ws, c["rng"][:ws], []
            yield c
    for k in ("nx", "ny"):
        if case["cfg"][k] > 2:
            c = copy.deepcopy(case)
            c["cfg"][k], c["choices"] = 2, []
            yield c
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][j]
        if c["ops"]:
            yield c
