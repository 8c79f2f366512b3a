"""M01: boundary tensors keep a consistent shape and scale."""
import copy
import random

import numpy as np
import torch

from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "M01"
LEVEL = "exploration"
NOTE = ("Seeded random histories of moves, renormalizations, chi changes, evolutions, loads and failing operations; every reached "
        "state is checked for fitting dimensions, the chi bound, scale and finiteness, and every operation is tried on it.")
PLAN = {"quick": 300, "thorough": 10000, "case_timeout": 300}
RULE = ("A case is a random history (5-25 operations: the four moves at random rows and columns in any order, renormalizations, "
        "chi raised and lowered, evolutions, model changes, saving and loading earlier checkpoints, new networks created from the "
        "current one, conversions between precisions, operations that fail half-way from lack of memory, a failing factorisation "
        "or an interrupt) from a random, product, GHZ-like, sparse, doubled (equal pairs of singular values), strongly random or badly scaled state, serial or on 2-4 ranks. "
        "After every operation every pair of neighbouring tensors must fit, boundary dimensions may not exceed the largest chi in "
        "force since they were last completely renormalized, and all tensors must be finite, of unit norm and of the requested "
        "precision; at random points all moves, a measurement, a renormalization and an update are tried on a copy. Non-trivial: "
        "at least one boundary dimension changed.")
DISTINCT = "hash of the sequence of boundary shapes reached"
REAL = ["all of acetn"]
STUB = ["torch.distributed (simulated) in distributed cases", "failing tensor operations", "clocks", "console", "random generator state"]
ASSUME = ["site tensors assigned by the user describe a state of non-zero norm",
          "chi is not smaller than the number of macroscopically different states a symmetry-breaking superposition consists of"]
PINNED = [{"cfg": {"nx": 2, "ny": 2, "D": 3, "chi": 3, "steps": 2, "phys": 3, "dtype": "float64", "projectors": "half-system",
                   "svd_type": "full-rank", "update": "simple", "gauge": True, "als_method": "cholesky", "als_niter": 5,
                   "model": {"kind": "random", "seed": 842931, "J": 0.341, "g": 0.627, "phys": 3, "wrap": "tensor", "bobs": True}},
           "state": "ghz", "sseed": 475767242, "oseed": 319084449, "ws": 1, "seed": 1258,
           "ops": [["renorm"], ["move", "down", 3], ["params", {"g": 0.615}], ["fork", "f3"], ["move", "right", 1],
                   ["move", "up", 3], ["chi", 5], ["renorm"], ["probe"]]}]
STATES = ["random", "random", "random", "twin", "strong", "product", "ghz", "sparse", "tiny", "huge", "fresh", "fresh"]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=3, nmin=1 if rng.random() < 0.25 else 2, chis=(1, 2, 3, 4, 5, 6, 8), steps=(1, 1, 2), Ds=(1, 2, 2, 2, 3),
                   dtypes=("float64", "float64", "float64", "float32"), phys=(2, 2, 3))
    if c["D"] == 3:
        c.update(chi=min(c["chi"], 5), nx=min(c["nx"], 2), ny=min(c["ny"], 2))
    flat = c["nx"] == 1 or c["ny"] == 1
    n = rng.randint(4, 14) if c["D"] == 3 else rng.randint(5, 25)
    ops, saved, cost = [], [], 0
    while len(ops) < n:
        x = rng.random()
        if x < 0.40:
            ops.append(["move", rng.choice(O.MOVES), rng.randrange(4)])
        elif x < 0.52:
            ops.append(["renorm"])
        elif x < 0.67:
            ops.append(["chi", rng.choice([1, 2, 3, 4, 5, 6, 8, 10])])
        elif x < 0.77 and not flat and cost < 3:
            cost += 1
            ops.append(["evolve", rng.choice([0.001, 0.05, 0.3]), rng.choice([1, 1, 2])])
        elif x < 0.81:
            saved.append(f"s{len(saved)}.pt")
            ops.append(["save", saved[-1]])
        elif x < 0.85 and saved:
            ops.append(["load", rng.choice(saved)])
        elif x < 0.88:
            ops.append(["fork", f"f{len(ops)}"])
        elif x < 0.90:
            ops.append(O.rand_param_change(rng, c))
        elif x < 0.95:
            k = rng.choice(["alloc", "linalg", "interrupt", "memory"])
            ops.append(["fault", rng.randint(1, 150), k, rng.choice([["renorm"], ["move", rng.choice(O.MOVES), rng.randrange(4)]]
                                                                    + ([] if flat else [["evolve", 0.05, 1]]))])
        else:
            ops.append(["probe"])
    ops.append(["probe"])
    kind = rng.choice(STATES)
    if kind == "ghz":
        # fewer states than the superposition has components could drop a different one at every bond
        c["chi"] = max(c["chi"], c["D"])
        ops = [["chi", max(o[1], c["D"])] if o[0] == "chi" else o for o in ops]
    if kind == "twin":
        c.update(D=4, phys=4, nx=min(c["nx"], 2), ny=min(c["ny"], 2), chi=min(c["chi"], 6), dtype="float64")
        c["model"] = {"kind": "random", "seed": rng.randrange(10 ** 6), "J": 0.7, "g": 0.3, "phys": 4, "wrap": "tensor"}
        ops = [["chi", min(o[1], 6)] if o[0] == "chi" else o for o in ops if o[0] in ("move", "renorm", "chi", "save", "load")][:8]
        ops.append(["probe"])
    case = {"cfg": c, "state": kind, "sseed": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30), "ops": ops, "ws": 1}
    if rng.random() < 0.15:
        case["ws"] = rng.choice([2, 3, 4])
        case["ops"] = []
        for o in ops:
            if o[0] == "move":
                case["ops"].append(["dmove", rng.choice(["lr", "ud"]), o[2], rng.randrange(4)])
            elif o[0] == "save":
                case["ops"].append(["save", o[1]])
            elif o[0] != "fault":
                case["ops"].append(o)
        case["ops"] = case["ops"][:10] + [["probe"]]
    return case


def state(case):
    c, kind = case["cfg"], case["state"]
    D, p = c["D"], c["phys"]
    if kind == "fresh":
        return None
    if kind in ("random", "strong"):
        return work.random_state(c, case["sseed"], eps=0.35 if kind == "random" else 2.0)
    if kind == "twin":
        # two independent copies of one state: singular values come in equal pairs
        one = work.random_state(dict(c, D=2, phys=2), case["sseed"], eps=0.35)
        return {s: np.einsum("lurdp,LURDP->lLuUrRdDpP", a, a).reshape(4, 4, 4, 4, 4) for s, a in one.items()}
    A = {}
    for x in range(c["nx"]):
        for y in range(c["ny"]):
            r = work._rng(case["sseed"], x, y)
            if kind == "product":
                a = np.zeros((D,) * 4 + (p,))
                a[0, 0, 0, 0] = r.normal(size=p)
            elif kind == "ghz":
                a = np.zeros((D,) * 4 + (p,))
                for j in range(D):
                    a[j, j, j, j, j % p] = 1.0
            elif kind == "sparse":
                a = r.uniform(-1, 1, (D,) * 4 + (p,)) * (r.rand(*(D,) * 4 + (p,)) < 0.25) * 0.4
                a[0, 0, 0, 0, 0] = 1.0
            else:
                a = 0.35 * r.uniform(-1, 1, (D,) * 4 + (p,))
                a[0, 0, 0, 0] += r.normal(size=p) + 1.0
            A[(x, y)] = a / np.linalg.norm(a) * {"tiny": 1e-6, "huge": 1e6}.get(kind, 1.0)
    return A


def norms(ip, tol, scaled):
    for s in work.sites_of(ip):
        t = ip[s]
        n = float(t["A"].double().norm())
        if not (scaled or 1e-2 < n < 1e2):
            return f"A of {s} has norm {n:.6g}"
        for name, x in [(f"C{i}", x) for i, x in enumerate(t["C"])] + [(f"E{i}", x) for i, x in enumerate(t["E"])]:
            n = float(x.double().norm())
            if not abs(n - 1) <= tol:
                return f"{name} of {s} has norm {n:.6g}"
    return None


def shapes(ip):
    return tuple(tuple(x.shape) for s in work.sites_of(ip) for x in [ip[s]["A"]] + ip[s]["C"] + ip[s]["E"])


class Watch:
    """The bound in force on one network, and the checks after each operation."""

    def __init__(self, case, c, rank=0):
        self.c, self.case, self.rank = c, case, rank
        self.chi = c["chi"]
        self.bound = max(c["D"] ** 2, c["chi"])
        self.saved = {}
        self.scaled = case["state"] in ("tiny", "huge")
        self.seen = []

    def after(self, op, ip, i, value=None):
        k = op[0]
        if k == "chi":
            self.chi = op[1]
            self.bound = max(self.bound, self.chi)
        elif k in ("renorm", "evolve"):
            self.bound = self.chi
            if k == "evolve":
                self.scaled = False
        elif k == "save":
            self.saved[op[1]] = (self.bound, self.scaled)
        elif k == "load":
            b, self.scaled = self.saved[op[1]]
            self.bound = max(b, self.chi)
        elif k == "fork":
            self.chi = self.c["chi"]
            self.bound = max(self.bound, self.chi)
        where = f"after operation {i} {op}"
        bad = work.shape_problem(ip, self.bound)
        if bad:
            raise Violation("shape", f"{where}: {bad}")
        bad = norms(ip, 1e-9 if ip.dtype == torch.float64 else 1e-4, self.scaled)
        if bad:
            raise Violation("scale", f"{where}: {bad}")
        self.seen.append(shapes(ip))


def probe(proc, c, d, i, flat, dist):
    """Every operation is possible on the state reached."""
    ip = d.ip

    def attempt(what, f):
        try:
            return f()
        except Exception as e:
            raise Violation("impossible", f"at operation {i}: {what} fails: {type(e).__name__}: {str(e)[:300]}")
    m = attempt("measuring", ip.measure)
    for k, v in m.items():
        if not np.isfinite(float(v)):
            raise Violation("not-finite", f"at operation {i}: measured {k} is {float(v)}")
    for kind in (("lr", "ud") if dist else O.MOVES):
        other = attempt("creating a network from it", lambda: work.new_network(proc, c, src=ip))
        other.set_chi(ip.dims["chi"])
        d2 = O.Driver(proc, c)
        d2.ip = other
        attempt(f"{kind} move", lambda: d2.do(["dmove", kind, i, i + 1] if dist else ["move", kind, i]))
        bad = work.shape_problem(other)
        if bad:
            raise Violation("shape", f"at operation {i}, {kind} move on a copy: {bad}")
    attempt("renormalizing", other.renormalize)
    if not flat:
        attempt("evolving", lambda: other.evolve(0.02, 1))
    bad = work.shape_problem(other, other.dims["chi"])
    if bad:
        raise Violation("shape", f"at operation {i}, renormalization on a copy: {bad}")
    other = d2.ip = None


def run(case, out):
    try:
        history(case, out)
    except Violation as v:
        # recorded in known_findings.txt: the simple update changes the basis of a bond, which for an exact
        # superposition of orthogonal states may leave the boundary of the old basis no overlap at all
        if case["state"] == "ghz" and case["cfg"]["update"] == "simple" and (
                ("finite" in v.msg or ": A of" in v.msg) and any("evolve" in str(o) for o in case["ops"])
                or v.cls == "impossible" and "evolving fails" in v.msg and "finite" in v.msg):
            raise Violation("superposition-simple-update", "superposition: " + v.msg)
        raise


def history(case, out):
    c = case["cfg"]
    flat = c["nx"] == 1 or c["ny"] == 1 or case["state"] == "twin"
    A = state(case)
    with O.scratch() as wd:
        if case["ws"] > 1:
            cl = Cluster(case["ws"], case["seed"], case.get("choices"), [case["oseed"] + r for r in range(case["ws"])])
            watches = {}

            def body(r):
                watches[r.rank] = w = Watch(case, c, r.rank)
                r.driver = d = O.Driver(r.proc, c, A, wd, r.rank)
                d.create()
                for i, op in enumerate(case["ops"]):
                    if op[0] == "probe":
                        probe(r.proc, c, d, i, flat, True)
                        continue
                    o = [op[0], f"{r.rank}-{op[1]}"] if op[0] in ("save", "load") else op
                    r.records.append({"op": op})
                    d.do(o)
                    w.after(op, d.ip, i)
            try:
                guarded(lambda: cl.run(body), "distributed run")
            finally:
                cl.finish(out)
            for r in sorted(cl.ranks, key=lambda r: "Connection closed" in str(r.error)):
                if isinstance(r.error, Violation):
                    raise r.error
            for r in sorted(cl.ranks, key=lambda r: "Connection closed" in str(r.error)):
                if r.error is not None:
                    raise Violation("failed", f"rank {r.rank} in {r.records[-1]['op'] if r.records else 'start'}: "
                                              f"{type(r.error).__name__}: {str(r.error)[:300]}")
            seen = watches[0].seen
            out.probe("distributed")
        else:
            p = Process("p", torch_seed=case["oseed"])
            with p:
                p.load()
                w = Watch(case, c)
                d = O.Driver(p, c, A, wd)
                d.create()
                for i, op in enumerate(case["ops"]):
                    if op[0] == "probe":
                        probe(p, c, d, i, flat, False)
                        continue
                    if op[0] == "fault":
                        r = d.do(op)
                        out.count(op[2], r != "completed")
                        w.bound = max(w.bound, w.chi)
                        if op[3][0] == "evolve" and d.ip.site_states_initialized:
                            pass
                        w.scaled = w.scaled or False
                        w.after(["faulted"] + op, d.ip, i)
                        continue
                    try:
                        d.do(op)
                    except Exception as e:
                        raise Violation("failed", f"operation {i} {op} failed: {type(e).__name__}: {str(e)[:300]}")
                    w.after(op, d.ip, i)
                seen = w.seen
                d.ip = None
                d.others.clear()
    out.probe("state." + case["state"])
    out.steps += len(case["ops"])
    out.note(seen)
    out.trivial = len(set(seen)) < 2
    out.sig = sig_of(case["ws"], c, seen)


def shrinks(case):
    if case["ws"] > 2:
        yield dict(copy.deepcopy(case), ws=2, choices=[])
    for k in ("nx", "ny"):
        if case["cfg"][k] > 2:
            d = copy.deepcopy(case)
            d["cfg"][k] = 2
            yield d
