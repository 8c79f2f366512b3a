"""F02: recovered factorisation failures do not change results."""
import copy
import random

import numpy as np
import torch

from .. import faults as F
from .. import ops as O
from .. import ref, work, zz
from ..core import Violation, sig_of
from ..procs import Process

ID = "F02"
LEVEL = "exploration"
NOTE = ("Seeded injection of failing eigenvalue and Cholesky factorisations (single, bursts, all, several at once) into real "
        "evolutions; states compared with exact ones and with the run without failures.")
PLAN = {"quick": 260, "thorough": 8000, "case_timeout": 300}
RULE = ("A case evolves a random network by full update (all solver and gauge options) while a random subset of the eigenvalue "
        "decompositions and Cholesky factorisations fails: one, a burst, a random fraction or all of them, of one or of both "
        "kinds. The run must not fail; its state is compared with the exact one (commuting models) and with the run without "
        "failures, through reduced density matrices of the infinite lattice contracted independently. Smaller cases do the "
        "same for single norm tensors and least-squares problems. Non-trivial: at least one failure was injected.")
DISTINCT = "hash of (configuration, failing calls)"
REAL = ["all of acetn"]
STUB = ["failing factorisations (at the boundary of torch)", "clocks", "console", "random generator state"]
ASSUME = ["environments are nearly converged, so that the norm tensors are positive up to rounding"]
RECOVERED = {"eigh": ("linalg_eigh", "eigh"), "cholesky": ("linalg_cholesky", "cholesky")}


def gen(rng, i, tier):
    kind = rng.choice(["zz", "zz", "run", "run", "norm", "als"])
    c = O.rand_cfg(rng, nmax=2, nmin=2, chis=(6, 8), steps=(4,), phys=(2,))
    c.update(update="full", svd_type="full-rank", als_niter=30, als_method=rng.choice(["cholesky", "cholesky", "cholesky", "pinv"]))
    if kind == "zz":
        c["model"] = {"kind": "zz", "seed": rng.randrange(10 ** 6), "J": rng.choice([1.0, -1.0]), "g": 0.0, "phys": 2}
    return {"cfg": c, "kind": kind, "state": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30), "tau": rng.choice([0.02, 0.1, 0.2]),
            "fail": rng.choice([["eigh"], ["cholesky"], ["eigh", "cholesky"]]), "how": rng.choice(["one", "burst", "some", "all", "first", "alternate"]),
            "fseed": rng.randrange(1 << 30), "nD": rng.choice([2, 3, 4]), "reps": rng.choice([1, 2]), "dtype": "float64"}


class Plan:
    """Which of the recoverable factorisations fail."""

    def __init__(self, case, total):
        r = random.Random(case["fseed"])
        how = case["how"]
        self.names = {n for k in case["fail"] for n in RECOVERED[k]}
        self.n = 0
        self.fired = {}
        at = r.randrange(max(1, total))
        width = r.randint(2, 12)
        q = r.choice([0.05, 0.3, 0.7])
        self.rng = r
        self.test = {"one": lambda i: i == at, "first": lambda i: i == 0, "burst": lambda i: at <= i < at + width,
                     "some": lambda i: self.rng.random() < q, "all": lambda i: True, "alternate": lambda i: i % 2 == 0}[how]

    def __call__(self, i, name, k):
        if name not in self.names:
            return None
        j = self.n
        self.n += 1
        if self.test(j):
            self.fired[name.replace("linalg_", "")] = self.fired.get(name.replace("linalg_", ""), 0) + 1
            return F.EXC["linalg"]()
        return None


def count(names):
    n = [0]

    def plan(i, name, k):
        n[0] += name in names
        return None
    return n, plan


def run(case, out):
    kind = case["kind"]
    if kind in ("norm", "als"):
        return unit(case, out)
    c = case["cfg"]
    names = {n for k in case["fail"] for n in RECOVERED[k]}

    def simulate(plan):
        p = Process("p", torch_seed=case["oseed"])
        with p:
            p.load()
            if kind == "zz":
                A = zz.product(c, lambda s: work.start_state(c["model"], s))
            else:
                A = work.random_state(c, case["state"], eps=0.2)
            ip = work.seeded_network(p, c, A)
            ip.renormalize()
            with F.Counter(plan):
                for _ in range(case["reps"]):
                    ip.evolve(case["tau"], 1)
            bad = work.shape_problem(ip)
            return zz.tensors(ip), bad, work.measure_dict(ip.measure())
    n, plan = count(names)
    A0, _, m0 = simulate(plan)
    plan = Plan(case, n[0])
    what = f"{case['how']} of {case['fail']} failing"
    try:
        A1, bad, m1 = simulate(plan)
    except Exception as e:
        raise Violation("not-recovered", f"{what}: the run failed: {type(e).__name__}: {str(e)[:300]}")
    for k, v in plan.fired.items():
        out.count(k, v)
    if bad:
        raise Violation("incompatible", f"{what}: {bad}")
    r1, _ = ref.exact_rdms(A1, c["nx"], c["ny"], 1024)
    r0, _ = ref.exact_rdms(A0, c["nx"], c["ny"], 1024)
    d = max(float(np.abs(r1[k] - r0[k]).max()) for k in r1)
    out.probe("1e%d" % (int(np.log10(max(d, 1e-16)))))
    if not d < 2e-5:
        raise Violation("differs", f"{what}: density matrices differ by {d:.2e} from the run without failures")
    if kind == "zz":
        w, _ = ref.exact_rdms(zz.evolved(c, c["model"], {b: case["reps"] for b in zz.bonds(c)}, case["tau"]), c["nx"], c["ny"], 1024)
        d = max(float(np.abs(r1[k] - w[k]).max()) for k in r1)
        if not d < 1e-5:
            raise Violation("inexact", f"{what}: density matrices differ by {d:.2e} from the exactly evolved state")
    for k in m0:
        if not abs(m0[k] - m1[k]) < 2e-3 * (1 + abs(m0[k])):
            raise Violation("differs", f"{what}: measured {k} is {m1[k]}, {m0[k]} without failures")
    out.note((sorted(plan.fired.items()), round(d, 12)))
    out.steps += plan.n
    out.trivial = not plan.fired
    out.sig = sig_of(c, case["kind"], case["fail"], case["how"], case["fseed"])


def unit(case, out):
    """One norm tensor or one least-squares problem."""
    r = np.random.RandomState(case["fseed"])
    nD, pD, bD = case["nD"], 2, 2
    p = Process("p", torch_seed=case["oseed"])
    with p:
        p.load()
        m = nD * nD
        q = np.linalg.qr(r.normal(size=(m, m)))[0]
        w = 10.0 ** r.uniform(-6, 0, m)
        N = torch.tensor((q * w) @ q.T).reshape(nD, nD, nD, nD)
        N = (N + N.permute(2, 3, 0, 1)) / 2
        fu = p.mod("evolution.full_update")
        cfg = work.new_network(p, dict(case["cfg"], model={"name": "ising", "params": {"jz": 1.0, "hx": 1.0}})).config.evolution
        a12g = torch.tensor(r.normal(size=(nD, nD, pD, pD)))

        def solve():
            if case["kind"] == "norm":
                nz = fu.positive_approx(N.clone())
                return torch.einsum("xyz,XYz->xyXY", nz, nz)
            s = p.mod("evolution.als_solver").ALSSolver(N, a12g, (nD, bD, pD), cfg)
            a, b = s.solve()
            return torch.einsum("yup,xuq->yxpq", a, b)
        names = {n for k in case["fail"] for n in RECOVERED[k]}
        n, cnt = count(names)
        with F.Counter(cnt):
            want = solve()
        plan = Plan(case, n[0])
        what = f"{case['kind']} problem, {case['how']} of {case['fail']} failing"
        try:
            with F.Counter(plan):
                got = solve()
        except Exception as e:
            raise Violation("not-recovered", f"{what}: failed: {type(e).__name__}: {str(e)[:300]}")
        for k, v in plan.fired.items():
            out.count(k, v)
        d = got - want
        if case["kind"] == "norm":
            e = float(d.norm() / want.norm())
        else:
            # distance in the metric of the problem
            f = lambda t: float(torch.einsum("yxYX,yxpq,YXpq->", N, t, t)) ** 0.5
            e = f(d) / f(want)
        if not e < 1e-6:
            raise Violation("differs", f"{what}: result differs by {e:.2e} (relative) from the one without failures")
        out.note((sorted(plan.fired.items()), round(e, 12)))
        out.steps += plan.n
        out.trivial = not plan.fired
    out.sig = sig_of(case)


def shrinks(case):
    for k, v in (("how", "one"), ("how", "first"), ("reps", 1), ("fail", case["fail"][:1])):
        if case[k] != v:
            yield dict(copy.deepcopy(case), **{k: v})
