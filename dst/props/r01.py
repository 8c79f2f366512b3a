"""R01: the randomised SVD does not influence physical results."""
import copy
import random

import numpy as np
import torch

from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "R01"
LEVEL = "exploration"
NOTE = ("Seeded search over the random vectors drawn: whole simulations with several random streams against the full-rank SVD, "
        "and single factorisations against the optimal one.")
PLAN = {"quick": 200, "thorough": 8000, "case_timeout": 300}
RULE = ("The source of randomness is a seam: each simulated run draws its random vectors from its own seeded stream (and in "
        "distributed runs every rank from its own). A case runs the same history (renormalization from a random state; a random "
        "sequence of moves; evolution; distributed renormalization; renormalization from the state of a symmetric model) with the "
        "full-rank SVD and with the randomised one under several streams, and compares all density matrices and measurements. "
        "The allowed difference is the truncation error at that chi, measured as the change between chi and 2 chi with the "
        "full-rank SVD, plus 1e-6. Smaller cases factorise products of one, two and four matrices with decaying spectra: "
        "orthonormal factors, reconstruction within 1.5 times the optimal error, singular values within that error.")
DISTINCT = "hash of (kind, configuration, random streams)"
REAL = ["all of acetn"]
STUB = ["random generator state (one seeded stream per simulated process)", "torch.distributed (simulated)", "clocks", "console"]
ASSUME = ["spectra decay at least geometrically (boundaries of gapped states)"]


def gen(rng, i, tier):
    kind = rng.choice(["system", "system", "system", "moves", "evolve", "dist", "product", "unit", "unit", "unit"])
    c = O.rand_cfg(rng, nmax=3, nmin=1 if rng.random() < 0.3 else 2, chis=(3, 4, 5, 6), steps=(8,), Ds=(2, 2, 2, 3), phys=(2,))
    c.update(svd_type="rsvd")
    if kind == "evolve":
        c.update(D=2, chi=rng.choice([6, 8]), nx=max(2, c["nx"]), ny=max(2, c["ny"]))
    if c["D"] == 3:
        c.update(nx=min(c["nx"], 2), ny=min(c["ny"], 2), chi=rng.choice([4, 6, 9]))
    if rng.random() < 0.3:
        c["rsvd_niter"] = rng.choice([1, 2, 3, 4])
        c["rsvd_oversampling"] = rng.choice([2, 4, 10])
    case = {"kind": kind, "cfg": c, "state": rng.randrange(1 << 30), "seeds": [rng.randrange(1 << 30) for _ in range(2)],
            "eps": rng.choice([0.2, 0.35])}
    if kind == "moves":
        case["ops"] = [["move", rng.choice(O.MOVES), rng.randrange(4)] for _ in range(rng.randint(4, 16))]
    if kind == "evolve":
        case["tau"] = rng.choice([0.01, 0.05])
        case["n"] = rng.choice([1, 2])
    if kind == "dist":
        case["ws"] = rng.choice([2, 3, 4])
    if kind == "unit":
        case["unit"] = {"f": rng.choice(["svd_lowrank", "fused_matmul_svd_lowrank", "fused_matmul_svd_lowrank",
                                         "fused_3matmul_svd_lowrank", "fused_3matmul_svd_lowrank"]),
                        "m": rng.randint(2, 40), "n": rng.randint(2, 40), "k": [rng.randint(2, 40) for _ in range(3)],
                        "q": rng.randint(1, 24), "niter": rng.choice([2, 2, 2, 3, 5]), "decay": rng.choice([0.05, 0.3, 0.6, 0.8]),
                        "scale": rng.choice([1e-6, 1.0, 1.0, 1e5]), "rank": rng.choice([None, None, 1, 3]),
                        "dtype": rng.choice(["float64", "float64", "float32"])}
    return case


def unit(case, out):
    u = case["unit"]
    r = np.random.RandomState(case["state"] % (1 << 32))
    p = Process("p", torch_seed=case["seeds"][0])
    with p:
        p.load()
        L = p.mod("linalg")
        dims = {"svd_lowrank": [u["m"], u["n"]], "fused_matmul_svd_lowrank": [u["m"], u["k"][0], u["n"]],
                "fused_3matmul_svd_lowrank": [u["m"]] + u["k"] + [u["n"]]}[u["f"]]
        ts = []
        for a, b in zip(dims[:-1], dims[1:]):
            x, _ = np.linalg.qr(r.normal(size=(a, a)))
            y, _ = np.linalg.qr(r.normal(size=(b, b)))
            k = min(a, b)
            s = u["decay"] ** np.arange(k) * r.uniform(0.5, 1, k)
            if u["rank"]:
                s[u["rank"]:] = 0
            ts.append(u["scale"] ** (1 / len(dims)) * (x[:, :k] * s) @ y[:k])
        M = ts[0]
        for t in ts[1:]:
            M = M @ t
        dt = getattr(torch, u["dtype"])
        args = [torch.tensor(t, dtype=dt) for t in ts]
        keep = [t.clone() for t in args]
        U, S, V = getattr(L, u["f"])(*args, q=u["q"], niter=u["niter"])
        for a, b in zip(args, keep):
            if not torch.equal(a, b):
                raise Violation("input", f"{u['f']} changed one of its factors")
    U, S, V = (t.double().numpy() for t in (U, S, V))
    q = min(u["q"], u["m"], u["n"])
    sv = np.linalg.svd(M, compute_uv=False)
    what = f"{u['f']}{dims}, q={u['q']}, niter={u['niter']}, {u['dtype']}"
    if U.shape != (u["m"], q) or S.shape != (q,) or V.shape != (u["n"], q):
        raise Violation("shape", f"{what}: shapes {U.shape}, {S.shape}, {V.shape}")
    rnd = (1e-5 if u["dtype"] == "float32" else 1e-12)
    fl = rnd * sv[0] * 10
    best = float(np.sqrt((sv[q:] ** 2).sum()))
    for n, x in (("U", U), ("V", V)):
        e = np.abs(x.T @ x - np.eye(q)).max()
        if not e < 100 * rnd:
            raise Violation("isometry", f"{what}: columns of {n} are not orthonormal ({e:.2e})")
    if (np.diff(S) > fl).any() or (S < 0).any():
        raise Violation("order", f"{what}: singular values {S}")
    err = np.linalg.norm(M - (U * S) @ V.T)
    if not err <= 1.5 * best + fl:
        raise Violation("inaccurate", f"{what}: error {err:.3e} of the low-rank form, optimal {best:.3e}")
    e = np.abs(S - sv[:q]).max()
    if not e <= 1.0 * best + fl:
        raise Violation("values", f"{what}: singular values off by {e:.3e}, optimal truncation error {best:.3e}")
    out.note((round(float(err / (best + fl)), 6)))
    out.probe("unit-%.1f" % min(9.9, err / (best + fl)))
    out.sig = sig_of(case)


def history(case, c, seed, A):
    """Density matrices and measurements after the case's history on one network."""
    p = Process("p", torch_seed=seed)
    with p:
        p.load()
        ip = work.seeded_network(p, c, A)
        d = O.Driver(p, c)
        d.ip = ip
        k = case["kind"]
        if k == "moves":
            for op in case["ops"]:
                d.do(op)
            for _ in range(2):
                ip.renormalize()
        elif k == "evolve":
            ip.renormalize()
            ip.evolve(case["tau"], case["n"])
            ip.renormalize()
        else:
            ip.renormalize()
        bad = work.shape_problem(ip, c["chi"])
        if bad:
            raise Violation("incompatible", f"{c['svd_type']}: {bad}")
        return work.rdms(p, ip), work.measure_dict(ip.measure())


def run(case, out):
    if case["kind"] == "unit":
        return unit(case, out)
    c = case["cfg"]
    if case["kind"] == "product":
        spec = c["model"] if "kind" in c["model"] else {"seed": 1, "kind": "zz", "phys": 2}
        A = work.product_state(c, lambda s: work.start_state(spec, s))
    else:
        A = work.random_state(c, case["state"], eps=case["eps"])
    full, mf = history(case, dict(c, svd_type="full-rank"), 1, A)
    big, _ = history(case, dict(c, svd_type="full-rank", chi=2 * c["chi"]), 1, A)
    trunc = max(float(np.abs(full[k] - big[k]).max()) for k in full)
    tol = 1e-6 + trunc
    for seed in case["seeds"]:
        if case["kind"] == "dist":
            got, mg = dist(case, c, seed, A, out)
        else:
            got, mg = history(case, c, seed, A)
        d = max(float(np.abs(got[k] - full[k]).max()) for k in full)
        out.probe("1e%d" % int(np.floor(np.log10(max(d, 1e-16)))))
        out.probe("rel1e%d" % int(np.floor(np.log10(max(d, 1e-16)/tol))))
        if not d <= tol:
            raise Violation("differs", f"random stream {seed}: density matrices differ by {d:.2e} from the full-rank SVD, "
                                       f"truncation error {trunc:.1e}")
        for k in mf:
            if not abs(mf[k] - mg[k]) <= 60 * tol:
                raise Violation("measure", f"random stream {seed}: {k} is {mg[k]}, {mf[k]} with the full-rank SVD, truncation error {trunc:.1e}")
        out.note(round(d, 10))
        out.steps += 1
    out.count("random stream", len(case["seeds"]))
    out.sig = sig_of(case)


def dist(case, c, seed, A, out):
    """The same on several ranks, each with its own random stream."""
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), [seed + 1000 * r for r in range(case["ws"])])
    res = {}

    def body(r):
        r.driver = d = O.Driver(r.proc, c, A)
        d.create()
        d.ip.renormalize()
        m = work.measure_dict(d.ip.measure())
        res[r.rank] = (work.rdms(r.proc, d.ip), m)
    try:
        guarded(lambda: cl.run(body), "distributed run")
    finally:
        cl.finish(out)
    for r in cl.ranks:
        if r.error is not None:
            raise Violation("rank-error", f"rank {r.rank} failed: {type(r.error).__name__}: {r.error}")
    return res[seed % case["ws"]]


def shrinks(case):
    c = case["cfg"]
    for k, v in (("nx", 2), ("ny", 2), ("rsvd_niter", None), ("rsvd_oversampling", None)):
        if c.get(k) not in (v, None) and case["kind"] != "unit":
            d = copy.deepcopy(case)
            if v is None:
                d["cfg"].pop(k)
            else:
                d["cfg"][k] = v
            yield d
