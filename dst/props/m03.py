"""M03: measuring, saving and copying are read-only; renormalizing keeps the state."""
import copy
import os
import random

import numpy as np
import torch

from .. import faults as F
from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "M03"
LEVEL = "exploration"
NOTE = ("Seeded search over histories with read-only operations (also failing and interrupted ones) inserted at random points, "
        "against the same history without them, bit for bit.")
PLAN = {"quick": 150, "thorough": 8000, "case_timeout": 300}
RULE = ("A case is a random history of mutating operations (moves, renormalizations, evolutions, changes of chi and parameters) "
        "run twice from the same random stream: once plain, once with read-only operations inserted at random points (measuring, "
        "density matrices, saving, copying, deep-copying, conversion to another precision, creating another network from it, each "
        "also repeated, or hit by a memory error, a failing factorisation or an interrupt at a random tensor operation). Every "
        "read-only operation must leave tensors, dimensions, settings, bond order and random stream bit for bit alone; repeated "
        "measurements must be equal; both runs must hold identical tensors and measurements after every mutating operation; "
        "renormalizing and moves must leave site tensors alone; and once a boundary is converged (20 sweeps of a weakly entangled "
        "state) further sweeps may not change measured values by more than 1e-8. A quarter of the cases do this on 2-4 ranks, where ranks may also "
        "read alone. Non-trivial: at least one read-only operation between two mutating ones.")
DISTINCT = "hash of (configuration, history, read-only operations)"
REAL = ["all of acetn", "torch.save (scratch directory)"]
STUB = ["torch.distributed (simulated) in distributed cases", "failing tensor operations", "clocks", "console", "random generator state"]
ASSUME = []
READS = ["measure", "measure", "rdm", "save", "copy", "deepcopy", "to", "from"]


def gen(rng, i, tier):
    kind = rng.choice(["twin", "twin", "twin", "dist", "converged"])
    c = O.rand_cfg(rng, nmax=3, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 6), steps=(1, 2),
                   dtypes=("float64", "float64", "float64", "float32"))
    flat = c["nx"] == 1 or c["ny"] == 1
    if kind == "converged":
        c.update(steps=20, chi=8, dtype="float64", phys=2)
        c["model"] = O.rand_model(rng, 2)
        return {"kind": kind, "cfg": c, "sseed": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30),
                "ops": [[rng.choice(["renorm", "left", "right", "up", "down"]), rng.randrange(3)] for _ in range(rng.randint(1, 8))]}
    ops = []
    for _ in range(rng.randint(2, 6)):
        x = rng.random()
        if x < 0.3:
            ops.append(["dmove", rng.choice(["lr", "ud"]), rng.randrange(4), rng.randrange(4)] if kind == "dist"
                       else ["move", rng.choice(O.MOVES), rng.randrange(4)])
        elif x < 0.55:
            ops.append(["renorm"])
        elif x < 0.8 and not flat:
            ops.append(["evolve", rng.choice([0.02, 0.2]), rng.choice([1, 1, 2])])
        elif x < 0.9:
            ops.append(["chi", rng.choice([2, 3, 5, 8])])
        else:
            ops.append(O.rand_param_change(rng, c))
    reads = []
    for j in range(len(ops) + 1):
        row = []
        for _ in range(rng.randrange(4)):
            r = {"op": rng.choice(READS), "twice": rng.random() < 0.3}
            if kind == "twin" and rng.random() < 0.35:
                r["fault"] = [rng.choice(["alloc", "memory", "linalg", "interrupt", "oom"]), round(rng.random(), 4)]
            if kind == "dist" and rng.random() < 0.4 and r["op"] in ("measure", "rdm", "copy", "save"):
                r["rank"] = rng.randrange(4)
            row.append(r)
        reads.append(row)
    case = {"kind": kind, "cfg": c, "sseed": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30), "ops": ops, "reads": reads,
            "fresh": rng.random() < 0.4}
    if kind == "dist":
        case["ws"] = rng.choice([2, 3, 4])
    return case


def settings(ip):
    return repr((sorted(ip.dims.items()), ip.config, ip.dtype, str(ip.device), ip.nx, ip.ny, [tuple(b) for b in ip.bond_list],
                 list(ip.site_list), getattr(ip, "site_states_initialized", None)))


def read(proc, c, d, kind):
    ip = d.ip
    if kind == "measure":
        return work.measure_dict(ip.measure())
    if kind == "rdm":
        return work.rdms(proc, ip)
    if kind == "save":
        return ip.save(d.path(f"r{d.rank}.pt"))
    if kind == "copy":
        return work.snap(ip.copy())
    if kind == "deepcopy":
        return work.snap(copy.deepcopy(ip))
    if kind == "to":
        return work.snap(ip.to(dtype=torch.float32))
    if kind == "from":
        return work.snap(work.new_network(proc, c, src=ip))
    raise ValueError(kind)


def equal(kind, a, b):
    if kind == "measure":
        return work.diff_meas(a, b)
    if kind == "rdm":
        return work.diff_rdm(a, b, 0.0)
    if kind == "save":
        return None
    return work.diff(a, b)


def apply_read(proc, c, d, r, out, where):
    """One read-only operation, checked."""
    ip, kind = d.ip, r["op"]
    before, sett, rng = work.snap(ip), settings(ip), torch.get_rng_state()
    what = f"{where}: {kind}"
    if r.get("fault"):
        cnt = F.Counter()
        with cnt:
            first = read(proc, c, d, kind)
        n = 1 + int(r["fault"][1] * cnt.n)
        what += f" hit by {r['fault'][0]} at call {n} of {cnt.n}"
        try:
            with F.Counter(F.at(n, r["fault"][0])) as k:
                read(proc, c, d, kind)
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            if "injected" not in str(e) and not isinstance(e, KeyboardInterrupt):
                raise
        out.count(r["fault"][0], len(k.raised))
    else:
        first = read(proc, c, d, kind)
    p = work.diff(work.snap(ip), before)
    if p:
        raise Violation("not-read-only", f"{what} changed the network: {p}")
    s2 = settings(ip)
    if s2 != sett:
        i = next(i for i, (a, b) in enumerate(zip(s2 + " ", sett + " ")) if a != b)
        raise Violation("not-read-only", f"{what} changed a setting: ...{sett[max(0, i - 60):i + 60]}... to ...{s2[max(0, i - 60):i + 60]}...")
    if not torch.equal(torch.get_rng_state(), rng) and kind not in ("from",):
        raise Violation("not-read-only", f"{what} advanced the random stream")
    torch.set_rng_state(rng)
    if r["twice"] or r.get("fault"):
        again = read(proc, c, d, kind)
        p = equal(kind, first, again)
        if p:
            raise Violation("unstable", f"{what}, repeated: {p}")
        torch.set_rng_state(rng)
    if kind in ("copy", "deepcopy"):
        p = work.diff(first, before)
        if p:
            raise Violation("inexact", f"{what}: {p}")
    if kind == "save" and r.get("rank") is None:
        # (creating a network is a collective operation)
        n = work.new_network(proc, c)
        torch.set_rng_state(rng)
        n.load(d.path(f"r{d.rank}.pt"))
        p = work.diff(work.snap(n), before)
        n = None
        if p:
            raise Violation("inexact", f"{what}: loaded again: {p}")
    out.probe("read." + kind)


def script(proc, case, rank, A, wd, reads, out):
    c = case["cfg"]
    d = O.Driver(proc, c, None if case.get("fresh") else A, wd, rank)
    d.create()
    snaps = []
    for j, op in enumerate(case["ops"] + [None]):
        for r in (case["reads"][j] if reads and j < len(case["reads"]) else []):
            if r.get("rank") is not None and r["rank"] % case["ws"] != rank:
                continue
            apply_read(proc, c, d, r, out, f"rank {rank}, before operation {j} {op}" if case.get("ws") else f"before operation {j} {op}")
        if op is None:
            break
        a = {s: d.ip[s]["A"].clone() for s in work.sites_of(d.ip)}
        d.do(op)
        if op[0] in ("renorm", "move", "dmove", "chi"):
            for s, x in a.items():
                if not torch.equal(x, d.ip[s]["A"]):
                    raise Violation("state-changed", f"operation {j} {op} changed the site tensor of {s}")
        m = work.measure_dict(d.ip.measure())
        snaps.append((work.snap(d.ip), m, [tuple(b) for b in d.ip.bond_list]))
    d.ip = None
    d.others.clear()
    return snaps


def compare(case, plain, read_, who=""):
    for j, (a, b) in enumerate(zip(plain, read_)):
        p = work.diff(b[0], a[0]) or work.diff_meas(b[1], a[1]) or (None if a[2] == b[2] else "order of bonds")
        if p:
            raise Violation("influenced", f"{who}after operation {j} {case['ops'][j]}, read-only operations before it changed its result: {p}")


def run(case, out):
    c = case["cfg"]
    A = work.random_state(c, case["sseed"], eps=0.15 if case["kind"] == "converged" else 0.35)
    if case["kind"] == "converged":
        return converged(case, out, A)
    res = {}
    with O.scratch() as wd:
        for reads in (False, True):
            if case["kind"] == "twin":
                p = Process("p", torch_seed=case["oseed"])
                with p:
                    p.load()
                    res[reads] = [script(p, case, 0, A, wd, reads, out)]
            else:
                cl = Cluster(case["ws"], case["seed"] + reads, case.get("choices") if reads else None,
                             [case["oseed"] + r for r in range(case["ws"])])
                got = {}

                def body(r):
                    got[r.rank] = script(r.proc, case, r.rank, A, wd, reads, out)
                try:
                    guarded(lambda: cl.run(body), "distributed run")
                finally:
                    if reads:
                        cl.finish(out)
                errs = sorted((r for r in cl.ranks if r.error is not None), key=lambda r: "Connection closed" in str(r.error))
                for r in errs:
                    if isinstance(r.error, Violation):
                        raise r.error
                    raise Violation("failed", f"rank {r.rank}: {type(r.error).__name__}: {str(r.error)[:300]}")
                res[reads] = [got[r] for r in range(case["ws"])]
    for k, (a, b) in enumerate(zip(res[False], res[True])):
        compare(case, a, b, f"rank {k} " if len(res[True]) > 1 else "")
    out.note([work.digest(x[0]) for x in res[True][0]])
    out.steps += len(case["ops"]) + sum(len(r) for r in case["reads"])
    out.trivial = not any(case["reads"][:len(case["ops"])])
    out.sig = sig_of(c, case["ops"], case["reads"])


def converged(case, out, A):
    c = case["cfg"]
    p = Process("p", torch_seed=case["oseed"])
    with p:
        p.load()
        d = O.Driver(p, c, A)
        d.create()
        ip = d.ip
        ip.renormalize()
        v0, r0 = work.measure_dict(ip.measure()), work.rdms(p, ip)
        for op in case["ops"]:
            d.do(["renorm"] if op[0] == "renorm" else ["move", op[0], op[1]])
            v = work.measure_dict(ip.measure())
            q = work.diff_rdm(work.rdms(p, ip), r0, 1e-8) or work.diff_meas(v, v0, 1e-7)
            if q:
                raise Violation("drift", f"converged boundary, then {op}: {q}")
        q = work.diff({s: (torch.tensor(a), [], []) for s, a in A.items()},
                      {s: (ip[s]["A"], [], []) for s in A})
        if q:
            raise Violation("state-changed", f"renormalizing: {q}")
        d.ip = ip = None
    out.probe("converged")
    out.steps += len(case["ops"])
    out.sig = sig_of(c, case["ops"], case["sseed"])


def shrinks(case):
    if case["kind"] == "converged":
        return
    for j in range(len(case["ops"])):
        d = copy.deepcopy(case)
        del d["ops"][j]
        d["reads"][j + 1] = d["reads"][j] + d["reads"][j + 1]
        del d["reads"][j]
        yield d
    for j, row in enumerate(case["reads"]):
        for k in range(len(row)):
            d = copy.deepcopy(case)
            del d["reads"][j][k]
            yield d
