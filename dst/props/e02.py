"""E02: every update finishes within bounded work, whatever the environment and failing factorisations."""
import copy
import random

import numpy as np
import torch

from .. import faults as F
from .. import ops as O
from .. import ref, work, zz
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process
from . import e01

ID = "E02"
LEVEL = "exploration"
NOTE = "Seeded search over norm tensors, precisions, options and patterns of failing factorisations, under an operation budget."
PLAN = {"quick": 420, "thorough": 40000, "case_timeout": 300}
RULE = ("Kind 'solver' (2/3 of the cases): the conditioning of the norm tensor, the gauge fixing and the least-squares solver run on "
        "a random norm tensor (positive, rank-deficient, indefinite, negative, non-symmetric, zero, nearly degenerate; scales "
        "1e-9..1e9) and target at either precision, while eigendecompositions and Cholesky factorisations fail never, at random, or "
        "always. Budget: 200 tensor operations for the conditioning, 200 + 80 per allowed iteration for the solver, which must also "
        "not start more than als_niter + 1 iterations; results finite; a positive norm tensor is changed by the conditioning by "
        "at most a few times its cutoff, negative part and rounding error. "
        "Kind 'evolve': histories with an exactly known evolved state (see E01) run with the same failing factorisations in one "
        "process or on 2-4 ranks, at both precisions: budget 600 operations per directional move and site, 1000 + 80 x als_niter per "
        "bond update, and the "
        "evolved state must still be the exact one (1e-5; 1e-2 at float32). Non-trivial: a factorisation failed, or "
        "the norm tensor was not positive, or single precision.")
DISTINCT = "hash of the case"
REAL = ["all of acetn"]
STUB = ["torch.distributed (simulated) in distributed cases", "failing factorisations (injected LinAlgError)", "clocks", "console",
        "random generator state"]
ASSUME = ["a factorisation that fails raises LinAlgError, as PyTorch documents"]
SHAPES = ["psd", "psd", "deficient", "indefinite", "slightly", "negative", "general", "zero", "degenerate", "spread"]


def rand_fault(rng):
    return {"which": rng.choice([["eigh"], ["cholesky"], ["eigh", "cholesky"]]), "p": rng.choice([1.0, 1.0, 0.5, 0.2]),
            "seed": rng.randrange(1 << 30)}


def gen(rng, i, tier):
    if rng.random() < 0.67:
        p = rng.choice([2, 2, 3])
        D = rng.choice([1, 2, 2, 3, 4])
        case = {"kind": "solver", "nD": rng.choice([1, 2, 3, 4, 6, 8]), "D": D, "p": p, "shape": rng.choice(SHAPES),
                "scale": 10.0 ** rng.choice([0, 0, 0, -3, -6, -9, 3, 6, 9]), "ascale": 10.0 ** rng.choice([0, 0, -3, 3]),
                "rank": rng.choice(["full", "full", "exact", "one", "zero-padded"]), "dtype": rng.choice(["float64", "float32"]),
                "niter": rng.choice([1, 2, 5, 20, 100]), "tol": rng.choice([1e-15, 1e-15, 1e-8, 0.0]),
                "method": rng.choice(["cholesky", "cholesky", "pinv"]), "epsilon": rng.choice([1e-12, 1e-12, 1e-8]),
                "cutoff": rng.choice([1e-12, 1e-12, 1e-14, 1e-8]), "gauge": rng.random() < 0.6, "sseed": rng.randrange(1 << 30)}
        case["D"] = min(D, case["nD"] * p)
    else:
        while True:
            case = e01.gen(rng, i, tier)
            if case["kind"] in ("diag", "field", "dimer", "vdimer") and 1 < min(case["cfg"]["nx"], case["cfg"]["ny"]) and case["cfg"]["nx"] * case["cfg"]["ny"] <= 9 \
                    and case["cfg"]["update"] == "full" and "weak" not in case["cfg"]["model"]:
                break
        case["what"], case["kind"] = case["kind"], "evolve"
        case["cfg"]["dtype"] = rng.choice(["float64", "float64", "float32"])
        case["ops"] = [o for o in case["ops"] if o[0] not in ("ckpt",) and o[:2] != ["set", ["update_type", "simple"]]]
    if rng.random() < 0.7:
        case["fault"] = rand_fault(rng)
    return case


def planner(case, out):
    f = case.get("fault")
    if not f:
        return None
    r = random.Random(f["seed"])

    def plan(n, name, k):
        for w in f["which"]:
            if w == name.replace("linalg_", "").replace("_ex", "") and r.random() < f["p"]:
                out.count(w + " fails")
                return F.EXC["linalg"]()
    return plan


# ---- the solver -----------------------------------------------------------------------
def norm_tensor(case):
    r = work._rng(case["sseed"], "N")
    n = case["nD"] ** 2
    q = np.linalg.qr(r.normal(size=(n, n)))[0]
    w = r.uniform(0.1, 1, n)
    kind = case["shape"]
    if kind == "deficient":
        w[r.uniform(size=n) < 0.6] = 0
    elif kind == "indefinite":
        w *= r.choice([-1, 1], n)
    elif kind == "slightly":
        w = np.where(r.uniform(size=n) < 0.5, w, -w * 10 ** r.uniform(-16, -3, n))
    elif kind == "negative":
        w = -w
    elif kind == "zero":
        w[:] = 0
    elif kind == "degenerate":
        w[:] = 1 + 1e-15 * r.uniform(size=n)
    elif kind == "spread":
        w = 10 ** r.uniform(-18, 0, n)
    N = (q * w) @ q.T
    N = (N + N.T) / 2
    if kind == "general":
        N = r.uniform(-1, 1, (n, n))
    return N * case["scale"]


def target(case):
    r = work._rng(case["sseed"], "a")
    nD, D, p = case["nD"], case["D"], case["p"]
    kind = case["rank"]
    b = 1 if kind == "one" else D
    a1, a2 = r.uniform(-1, 1, (nD, b, p)), r.uniform(-1, 1, (nD, b, p))
    if kind == "zero-padded" and nD > 1:
        a1[nD // 2:] = 0
        a2[nD // 2:] = 0
    g = np.einsum("yup,xuq->yxpq", a1, a2)
    if kind == "full":
        g = g + 0.1 * r.uniform(-1, 1, g.shape)
    return g * case["ascale"]


def finite(case, what, *ts):
    for t in ts:
        if not bool(torch.isfinite(t).all()):
            raise Violation("not-finite", f"{what} is not finite for a {case['shape']} norm tensor of scale {case['scale']:.0e}, {case['dtype']}")


def solver(case, out):
    p = Process("p", torch_seed=case["sseed"])
    with p:
        p.load()
        fu, als = p.mod("evolution.full_update"), p.mod("evolution.als_solver")
        Config = p.mod("ipeps.ipeps_config").EvolutionConfig
        dt = getattr(torch, case["dtype"])
        N0, nD = norm_tensor(case), case["nD"]
        N = torch.tensor(N0, dtype=dt)
        N0 = N.double().numpy().copy()
        g = torch.tensor(target(case), dtype=dt)
        plan = planner(case, out)
        cfg = Config(als_niter=case["niter"], als_tol=case["tol"], als_method=case["method"], als_epsilon=case["epsilon"],
                     positive_approx_cutoff=case["cutoff"], use_gauge_fix=case["gauge"])

        def limited(what, cap, f):
            try:
                with F.Counter(plan, cap) as m:
                    r = f()
            except F.Exceeded:
                raise Violation("unbounded", f"{what} takes more than {cap} operations for a {case['shape']} norm tensor "
                                             f"of scale {case['scale']:.0e}, {case['dtype']}")
            except (RuntimeError, ValueError) as e:
                raise Violation("error", f"{what} failed for a {case['shape']} norm tensor of scale {case['scale']:.0e}, "
                                         f"{case['dtype']}: {type(e).__name__}: {str(e)[:200]}")
            return r, m
        with torch.inference_mode():
            nz, m = limited("conditioning the norm tensor", 200, lambda: fu.positive_approx(N.reshape((nD,) * 4), cutoff=case["cutoff"]))
            out.probe("conditioning ops <= %d" % (10 * -(-m.n // 10)))
            finite(case, "the conditioned norm tensor", nz)
            z = nz.double().numpy().reshape(nD * nD, -1)
            if case["shape"] != "general":
                w = np.linalg.eigvalsh(N0)
                size = max(abs(w[0]), abs(w[-1]))
                eps = torch.finfo(dt).eps
                allowed = 8 * (max(0, -w[0]) + case["cutoff"]) + 50 * nD * nD * eps * size
                change = np.abs(z @ z.T - N0).max()
                if not change <= allowed:
                    raise Violation("distorted", f"conditioning a {case['shape']} norm tensor of scale {case['scale']:.0e}, "
                                                 f"{case['dtype']}, changes it by {change:.1e} (allowed {allowed:.1e})")
            if case["gauge"]:
                (n12, g, *_), m = limited("fixing the gauge", 200, lambda: fu.gauge_fix(nz, g, atol=1e-12))
                finite(case, "the gauge-fixed norm tensor", n12, g)
            else:
                n12 = torch.einsum("xyz,XYz->xyXY", nz, nz)
            for k in (case["niter"], 3):
                cfg.als_niter = k
                (a1, a2), m = limited(f"a least-squares solution with at most {k} iterations", 200 + 80 * k,
                                      lambda: als.ALSSolver(n12, g, (nD, case["D"], case["p"]), cfg).solve())
                sol = sum(v for n, v in m.by_name.items() if "cholesky" in n or "pinv" in n)
                if sol > 2 * k + 2:
                    raise Violation("iterations", f"{sol} least-squares problems solved with als_niter = {k}")
                out.probe("iterations %s" % ("max" if sol >= 2 * k else "<max"))
                finite(case, "the solution", a1, a2)
                out.note((round(float(a1.double().abs().sum()), 6), m.n))
    out.probe(case["shape"])
    out.steps += 3
    out.trivial = case["dtype"] == "float64" and case["shape"] in ("psd", "degenerate") and not out.fired


# ---- evolution ------------------------------------------------------------------------
def script(d, case, out):
    c = case["cfg"]
    d.create()
    d.ip.renormalize()
    plan = planner(case, out)
    for op in case["ops"]:
        if op[0] == "set":
            setattr(d.ip.config.evolution, op[1][0], op[1][1])
        elif op[0] == "evolve":
            bonds = 2 * c["nx"] * c["ny"]
            ev = d.ip.config.evolution
            # two moves along a row or column and one least-squares problem per update, full sweeps before and after
            moves = 2 * (4 * c["nx"] * c["ny"] * d.ip.config.ctmrg.steps) + 2 * bonds * op[2] * max(c["nx"], c["ny"])
            cap = 2000 + 600 * moves + bonds * op[2] * (1000 + 80 * ev.als_niter)
            try:
                with F.Counter(plan, cap) as m:
                    d.ip.evolve(dtau=op[1], steps=op[2])
            except F.Exceeded:
                raise Violation("unbounded", f"an evolution of {op[2]} steps with als_niter {ev.als_niter} takes more than {cap} operations")
            out.probe("budget used <= %d%%" % (5 * -(-20 * m.n // cap)))
        else:
            d.do(op)
    A = zz.tensors(d.ip)
    d.ip = None
    d.others.clear()
    return A


def simulate(case, out, A0):
    c = case["cfg"]
    if not case.get("ws"):
        p = Process("p", torch_seed=case["oseed"])
        with p:
            p.load()
            return script(O.Driver(p, c, A0), case, out)
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), [case["oseed"] + r for r in range(case["ws"])])
    got = {}

    def body(r):
        got[r.rank] = script(O.Driver(r.proc, c, A0, None, r.rank), case, out)
    try:
        guarded(lambda: cl.run(body), "distributed evolution")
    finally:
        cl.finish(out)
    for r in sorted((r for r in cl.ranks if r.error is not None), key=lambda r: "Connection closed" in str(r.error)):
        raise r.error
    return got[case["sseed"] % case["ws"]]


def evolution(case, out):
    c = case["cfg"]
    ecase = dict(case, kind=case["what"])
    A0 = e01.start(ecase)
    try:
        A1 = simulate(case, out, A0)
    except Violation:
        raise
    except Exception as e:
        raise Violation("error", f"the evolution failed: {type(e).__name__}: {str(e)[:300]}")
    for s, a in A1.items():
        if not np.isfinite(a).all():
            raise Violation("not-finite", f"site tensor of {s}")
    got, want = e01.rdms(c, A1), e01.rdms(c, e01.exact(ecase, A0))
    d = max(float(np.abs(got[k] - want[k]).max()) for k in got)
    tol = 1e-5 if c["dtype"] == "float64" else 1e-2
    out.probe("%s 1e%d" % (c["dtype"], int(np.floor(np.log10(max(d, 1e-16))))))
    p = work.diff_rdm(got, want, tol)
    if p:
        raise Violation("inexact", f"{case['what']}, {c['dtype']}: {p} from the exactly evolved state")
    out.steps += len(case["ops"])
    out.note([float(np.round(got[k], 6).sum()) for k in got])
    out.trivial = not out.fired and c["dtype"] == "float64"


def run(case, out):
    (solver if case["kind"] == "solver" else evolution)(case, out)
    out.sig = sig_of({k: v for k, v in case.items() if k not in ("seed", "id", "choices")})


def shrinks(case):
    if "fault" in case:
        c = copy.deepcopy(case)
        del c["fault"]
        yield c
    if case["kind"] == "evolve":
        yield from e01.shrinks(case)
    else:
        for k, v in (("nD", 2), ("nD", 4), ("D", 2), ("scale", 1.0), ("ascale", 1.0), ("niter", 5), ("gauge", False), ("rank", "full"),
                     ("dtype", "float64")):
            if case[k] != v:
                yield dict(copy.deepcopy(case), **{k: v})
