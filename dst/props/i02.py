"""I02: copies are exact and independent, and a supplied state is used."""
import copy
import os

import torch

from .. import ops as O
from .. import work
from ..core import Violation, sig_of
from ..procs import Process

ID = "I02"
LEVEL = "exploration"
NOTE = ("Seeded search over histories of copying and changing networks on the real code; after every operation all other "
        "networks are compared bit by bit with what they were.")
PLAN = {"quick": 500, "thorough": 10000, "case_timeout": 300}
RULE = ("A case is a random history on several networks of one process: copy, convert, deep-copy, create from another one or "
        "from a plain copy, load a checkpoint; renormalize, move boundaries, evolve, set chi or parameters, assign or modify "
        "tensors in place, fail half-way. Every new network equals its source bit by bit (or its conversion), after every "
        "operation all other networks are bit for bit what they were, and evolving a network created from another, or loaded, "
        "by a negligible time leaves its physical state where it was. Non-trivial: at least one copy existed when something "
        "was changed.")
DISTINCT = "hash of (configuration, history)"
REAL = ["all of acetn", "torch.save / torch.load", "the file system (scratch directory)"]
STUB = ["failing tensor operations", "clocks", "console", "random generator state"]
ASSUME = ["the physical state is compared through density matrices after renormalizing both"]
N = ["a", "b", "c", "d"]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2 if tier == "quick" else 3, nmin=1 if rng.random() < 0.2 else 2, chis=(4, 5), steps=(1, 2), dtypes=("float64", "float64", "float32"))
    c["als_niter"] = 5
    kind = {"a": "full"}
    ops = []
    for k in range(rng.randint(4, 10 if tier == "quick" else 20)):
        src, dst = rng.choice(sorted(kind)), rng.choice(N)
        x = rng.random()
        if x < 0.4 or len(kind) == 1:
            how = rng.choice(["from", "from", "copy", "to", "todtype", "deepcopy", "load", "todevice"])
            ops.append([how, dst, src])
            kind[dst] = "full" if how in ("from", "load") or (how == "deepcopy" and kind[src] == "full") else "plain"
        elif x < 0.75 and kind[src] == "full":
            ops.append(rng.choice([["renorm", src], ["evolve", src, rng.choice([0.05, 0.2])], ["evolve", src, 0.05], ["chi", src, rng.choice([3, 6])],
                                   ["tiny", src], ["tiny", src], ["measure", src], ["fail", src, rng.randint(1, 300)], ["reload", src, rng.choice(sorted(kind))]]))
        else:
            ops.append(rng.choice([["inplace", src], ["assign", src], ["scale", src], ["move", src, rng.choice(O.MOVES), rng.randrange(4)],
                                   ["dims", src], ["lists", src], ["site", src]]))
    return {"cfg": c, "ops": ops, "state": rng.randrange(1 << 30) if rng.random() < 0.6 else None, "oseed": rng.randrange(1 << 30)}


def full_state(ip):
    return {"t": work.snap(ip), "dims": dict(ip.dims), "bonds": [tuple(b) for b in ip.bond_list], "sites": list(ip.site_list),
            "dtype": str(ip.dtype), "nx": ip.nx, "ny": ip.ny}


def compare(a, b, tensors=True):
    if tensors:
        p = work.diff(a["t"], b["t"])
        if p:
            return p
    for k in ("dims", "bonds", "sites", "dtype", "nx", "ny"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} vs {b[k]}"
    return None


def convert(s, dtype):
    return {k: (A.to(dtype), [x.to(dtype) for x in C], [x.to(dtype) for x in E]) for k, (A, C, E) in s.items()}


def run(case, out):
    c = case["cfg"]
    proc = Process("p", torch_seed=case["oseed"])
    changed = False
    with O.scratch() as d, proc:
        proc.load()
        v = {}
        ip = work.new_network(proc, c)
        if case["state"] is not None:
            work.set_state(ip, work.random_state(c, case["state"]))
            ip = work.new_network(proc, c, src=ip)
        else:
            ip.evolve(0.05, 1)
        v["a"] = ip
        seen = {"a": full_state(ip)}
        for i, op in enumerate(case["ops"]):
            k, a = op[0], op[1]
            what = f"operation {i} {op}"
            if len(op) > 2 and isinstance(op[2], str) and op[2] in N and op[2] not in v or k not in MAKES and a not in v:
                continue
            src = v.get(op[2]) if len(op) > 2 and isinstance(op[2], str) else None
            try:
                if k in MAKES:
                    new = make(proc, c, k, src, d)
                    st = full_state(new)
                    want = dict(seen[op[2]])
                    if k == "todtype":
                        want["dtype"] = "torch.float32"
                        want["t"] = convert(want["t"], torch.float32)
                    if k in ("from", "load"):
                        # takes over tensors and unit cell; chi is its own setting
                        want["dims"] = dict(c_dims(c))
                        want["dtype"] = "torch." + c["dtype"]
                        want["t"] = convert(want["t"], getattr(torch, c["dtype"]))
                    if k == "load":
                        want["bonds"] = st["bonds"]
                    p = compare(st, want)
                    if p:
                        raise Violation("inexact:" + k, f"{what}: the new network differs from its source: {p}")
                    v[a] = new
                    seen[a] = st
                    out.probe(k)
                else:
                    act(proc, c, k, v[a], op, d, out, v)
                    seen[a] = full_state(v[a])
                    changed = changed or len(v) > 1
            except Violation:
                raise
            except Exception as e:
                raise Violation("error:" + k, f"{what} failed: {type(e).__name__}: {e}")
            out.note((k, work.digest(seen[a]["t"])))
            for n, x in v.items():
                p = compare(full_state(x), seen[n])
                if p:
                    raise Violation("not-independent", f"{what} changed network {n}: {p}")
        out.steps += len(case["ops"])
        v.clear()
    out.trivial = not changed
    out.sig = sig_of(c, case["ops"])


MAKES = ("from", "copy", "to", "todtype", "deepcopy", "load", "todevice")


def c_dims(c):
    return {"phys": c.get("phys", 2), "bond": c["D"], "chi": c["chi"]}


def make(proc, c, k, src, d):
    if k == "from":
        return work.new_network(proc, c, src=src)
    if k == "copy":
        return src.copy()
    if k == "to":
        return src.to()
    if k == "todevice":
        return src.to(device=torch.device("cpu"), dtype=src.dtype)
    if k == "todtype":
        return src.to(dtype=torch.float32)
    if k == "deepcopy":
        return copy.deepcopy(src)
    p = os.path.join(d, "x.pt")
    src.save(p)
    new = work.new_network(proc, c)
    new.load(p)
    os.remove(p)
    return new


def act(proc, c, k, ip, op, d, out, v):
    sites = work.sites_of(ip)
    if k == "renorm":
        ip.renormalize()
    elif k == "evolve":
        ip.evolve(op[2], 1)
    elif k == "measure":
        ip.measure()
    elif k == "chi":
        ip.set_chi(op[2])
    elif k == "reload":
        p = os.path.join(d, "y.pt")
        v[op[2]].save(p)
        ip.load(p)
        os.remove(p)
    elif k == "fail":
        from .. import faults as F
        try:
            with F.Counter(F.at(op[2], "oom")):
                ip.evolve(0.05, 1)
        except Exception as e:
            e.__traceback__ = None
            out.count("oom")
    elif k == "tiny":
        tiny(proc, c, ip, out)
    elif k == "inplace":
        with torch.inference_mode():
            t = ip[sites[-1]]
            t["A"].add_(0.01)
            t["C"][0].mul_(1.01)
            t["E"][2].add_(0.001)
    elif k == "scale":
        with torch.inference_mode():
            for s in sites:
                t = ip[s]["A"]
                t[..., 0] *= 1.05
    elif k == "assign":
        t = ip[sites[0]]
        t["A"] = t["A"] * 1.01 + 0.01
        t["C"] = [x * 1.5 for x in t["C"]]
        t["E"] = [x + 0.001 for x in t["E"]]
    elif k == "site":
        # one tensor object of the list is replaced
        t = ip[sites[0]]
        t["C"][1] = t["C"][1] * 2.0
        t["E"][3] = t["E"][3] * 2.0
    elif k == "move":
        if not hasattr(ip, "config"):
            return
        O.Driver.do(_D(proc, ip), ["move", op[2], op[3]])
    elif k == "dims":
        ip.dims["chi"] = ip.dims["chi"] + 1
    elif k == "lists":
        ip.bond_list.reverse()


class _D:
    def __init__(self, proc, ip):
        self.proc, self.ip = proc, ip


def tiny(proc, c, ip, out):
    """A negligible evolution must leave the physical state where it is."""
    if c["dtype"] != "float64" or 1 in (c["nx"], c["ny"]):
        # a bond of a narrow cell updates one end of itself only (E01, class narrow-cell)
        return
    before = measured(proc, c, ip)
    ip.evolve(1e-9, 1)
    after = measured(proc, c, ip)
    if before is None or after is None:
        out.probe("tiny-skipped")
        return
    p = work.diff_rdm(after, before, 2e-2)
    out.probe("tiny")
    if p:
        raise Violation("state-lost", f"evolving by a negligible time changed the state: {p}")


def measured(proc, c, ip):
    src = {s: ip[s]["A"].double().numpy().copy() for s in work.sites_of(ip)}
    out = []
    for steps in (4, 6):
        n = work.new_network(proc, dict(c, chi=8, svd_type="full-rank", projectors="full-system", model={"name": "ising", "params": {"jz": 1.0, "hx": 1.0}}
                                        if c.get("phys", 2) == 2 else c["model"]))
        work.set_state(n, src)
        n.config.ctmrg.steps = steps
        n.renormalize()
        out.append(work.rdms(proc, n))
    if work.diff_rdm(out[0], out[1], 1e-3):
        return None     # not converged: strongly correlated state
    return out[1]


def shrinks(case):
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][j]
        yield c
