"""E01: evolution applies exactly the imaginary-time evolution of the model."""
import copy

import numpy as np
import torch

from .. import ops as O
from .. import ref, work, zz
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "E01"
LEVEL = "exploration"
NOTE = ("Seeded search over Hamiltonians, start states, options, histories and rank schedules for which the evolved state is "
        "known in closed form (or to second order in the time step).")
PLAN = {"quick": 110, "thorough": 12000, "case_timeout": 300}
RULE = ("A case runs a random history (1-4 evolutions of 0-4 steps with changing step sizes, parameters and models, mixed with "
        "renormalizations, changes of chi, of the update type and of the solver options, and checkpoint round trips) and compares "
        "all one- and two-site density matrices of the resulting site tensors with an independent value. Kinds: (diag) random "
        "diagonal bond and site terms (also of very different strengths) from a product state, exact with bond dimension p however long the evolution; (entangled) "
        "the same from a random entangled state of half the bond dimension; (field) arbitrary site terms on any entangled state, "
        "exact, in one of twenty cases in a cell one site wide; (dimer) arbitrary terms on disjoint horizontal or vertical bonds, exact; (first) arbitrary terms on every bond and "
        "site with small steps, compared with the Taylor-expanded evolution of a finite cluster to second order. A third of the "
        "cases run on 2-4 simulated ranks under a random schedule. Tolerances 1e-5 (exact kinds; largest seen 3e-7), "
        "40 T^2 (first; largest seen 8 T^2). Non-trivial: the evolution changed the state by more than the tolerance.")
DISTINCT = "hash of (configuration, history)"
REAL = ["all of acetn"]
STUB = ["torch.distributed (simulated) in distributed cases", "clocks", "console", "environment variables", "random generator state"]
ASSUME = ["numpy's SVD and matrix exponentials by eigendecomposition are correct"]
PINNED = [{"kind": "field", "cfg": {"nx": 1, "ny": 1, "phys": 2, "D": 1, "chi": 3, "steps": 1, "update": "full", "gauge": False,
                                    "als_method": "cholesky", "als_niter": 20, "projectors": "half-system", "svd_type": "rsvd",
                                    "model": {"kind": "field", "seed": 391899, "phys": 2, "J": 1.019, "g": 0.35, "wrap": "pauli",
                                              "sparse_sites": False}},
           "ops": [["evolve", 0.01, 4]], "oseed": 1, "sseed": 2}]
KINDS = ["diag", "diag", "diag", "field", "dimer", "vdimer", "vdimer", "first", "first", "entangled", "field", "diag"]


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    narrow = rng.random() < 0.05
    if narrow:
        kind = "field"
    p = rng.choice([2, 2, 2, 3])
    big = kind != "entangled" and rng.random() < 0.25
    c = {"nx": rng.choice([2, 2, 3]) if not big else rng.choice([3, 4]), "ny": rng.choice([2, 2, 3]), "phys": p,
         "D": p if p == 3 or kind == "first" or rng.random() < 0.8 else 3, "chi": rng.choice([3, 4, 6]), "steps": rng.choice([1, 2]),
         "update": rng.choice(["full", "full", "simple"]), "gauge": rng.random() < 0.6,
         "als_method": rng.choice(["cholesky", "cholesky", "pinv"]), "als_niter": rng.choice([10, 20, 100]),
         "projectors": rng.choice(["half-system", "full-system"]), "svd_type": rng.choice(["rsvd", "full-rank"])}
    if kind == "field":
        c["D"] = rng.choice([1, 2, 2, 3])
    if narrow:
        # bonds that join a site to itself
        c.update(D=1, nx=1, ny=rng.choice([1, 2, 3]))
    if kind == "entangled":
        c.update(nx=2, ny=2, phys=2, D=4, chi=4)
        p = 2
    if rng.random() < 0.5:
        c["nx"], c["ny"] = c["ny"], c["nx"]
    if kind == "dimer":
        c["nx"] = rng.choice([2, 2, 4])
    if kind == "vdimer":
        c["ny"] = rng.choice([2, 2, 4])
    if kind == "first" and p == 3:
        c.update(nx=rng.choice([2, 2, 3]), ny=3, chi=3)
    spec = {"kind": {"first": "random", "entangled": "diag"}.get(kind, kind), "seed": rng.randrange(10 ** 6), "phys": p,
            "J": round(rng.uniform(0.4, 1.2), 3), "g": 0.0 if kind in ("dimer", "vdimer") else round(rng.uniform(0.3, 1.5), 3),
            "wrap": rng.choice(["tensor", "pauli"]), "sparse_sites": rng.random() < 0.3}
    if kind == "diag" and rng.random() < 0.35:
        spec["weak"] = rng.choice([-4, -8, -12, -16])
    c["model"] = spec
    ops = []
    n = rng.randint(1, 4) if kind in ("diag", "field", "dimer", "vdimer") else 1
    for j in range(n):
        if kind == "first":
            ops.append(["evolve", rng.choice([1e-4, 2e-4, 3e-4]), rng.randint(1, 3)])
        else:
            ops.append(["evolve", rng.choice([0.01, 0.03, 0.1]), rng.choice([0, 1, 1, 2, 4]) if n > 1 else rng.randint(1, 4)])
        if kind == "entangled":
            ops[-1][2] = 1
        x = rng.random()
        if j < n - 1 or rng.random() < 0.3:
            if x < 0.3 and "weak" not in spec and kind != "dimer" and kind != "vdimer":
                ops.append(["params", {rng.choice(["J", "g"]): round(rng.uniform(0.3, 1.4), 3)}])
            elif x < 0.42:
                ops.append(["renorm"])
            elif x < 0.5:
                ops.append(["chi", rng.choice([2, 5, 8])])
            elif x < 0.65:
                ops.append(["set", rng.choice([["update_type", "simple"], ["update_type", "full"], ["use_gauge_fix", True],
                                               ["use_gauge_fix", False], ["als_method", "pinv"], ["als_method", "cholesky"]])])
            elif x < 0.75 and kind == "diag":
                m = dict(spec, seed=rng.randrange(10 ** 6), start=spec["seed"])
                ops.append(["model", m])
            elif x < 0.85:
                ops.append(["ckpt"])
            elif x < 0.93:
                ops.append(["fork", "o"])
    case = {"kind": kind, "cfg": c, "ops": ops, "oseed": rng.randrange(1 << 30), "sseed": rng.randrange(1 << 30)}
    if rng.random() < 0.35 and kind != "entangled" and c["nx"] * c["ny"] * (2 if c["D"] == 3 else 1) < 13:
        case["ws"] = rng.choice([2, 3, 4])
    # bound the work: a full update costs milliseconds per bond and rank
    left = 400 if c["update"] == "simple" and not any(o[0] == "set" for o in ops) else 26 if case.get("ws") else 60
    for o in ops:
        if o[0] == "evolve":
            cost = 2 * c["nx"] * c["ny"] * (3 if c["D"] == 3 else 1)
            o[2] = max(min(o[2], left // cost), 1 if o is ops[0] else 0)
            left -= o[2] * cost
    return case


def start(case):
    c, kind = case["cfg"], case["kind"]
    if kind == "field":
        return work.random_state(c, case["sseed"], eps=0.3)
    if kind == "entangled":
        small = work.random_state(dict(c, D=2), case["sseed"], eps=0.25)
        w = c["D"] - 2
        return {s: np.pad(a, [(0, w)] * 4 + [(0, 0)]) for s, a in small.items()}
    return zz.product(c, lambda s: work.start_state(c["model"], s))


def script(d, case):
    """The user's script; returns the site tensors at the end."""
    d.create()
    d.ip.renormalize()
    for j, op in enumerate(case["ops"]):
        if op[0] == "set":
            setattr(d.ip.config.evolution, op[1][0], op[1][1])
        elif op[0] == "ckpt":
            d.do(["save", f"c{d.rank}.pt"])
            d.do(["load", f"c{d.rank}.pt"])
        else:
            d.do(op)
    p = work.shape_problem(d.ip)
    if p:
        raise Violation("incompatible", p)
    A = zz.tensors(d.ip)
    d.ip = None
    d.others.clear()
    return A


def simulate(case, out, A0):
    c = case["cfg"]
    with O.scratch() as wd:
        if not case.get("ws"):
            p = Process("p", torch_seed=case["oseed"])
            with p:
                p.load()
                return script(O.Driver(p, c, A0, wd), case)
        cl = Cluster(case["ws"], case["seed"], case.get("choices"), [case["oseed"] + r for r in range(case["ws"])])
        got = {}

        def body(r):
            got[r.rank] = script(O.Driver(r.proc, c, A0, wd, r.rank), case)
        try:
            guarded(lambda: cl.run(body), "distributed evolution")
        finally:
            cl.finish(out)
        errs = sorted((r for r in cl.ranks if r.error is not None), key=lambda r: "Connection closed" in str(r.error))
        for r in errs:
            raise r.error
        for k in range(1, case["ws"]):
            for s in got[0]:
                if not np.array_equal(got[0][s], got[k][s]):
                    raise Violation("ranks-differ", f"rank {k} holds another site tensor of {s} than rank 0")
        return got[0]


# ---- the exact state ------------------------------------------------------------------
def periods(case):
    """(spec, time) of every evolution of the history, with the parameters then in force."""
    spec = dict(case["cfg"]["model"])
    for op in case["ops"]:
        if op[0] == "evolve":
            yield spec, op[1] * op[2]
        elif op[0] == "params":
            spec = dict(spec, **op[1])
        elif op[0] == "model":
            spec = dict(op[1])
        elif op[0] == "fork":
            # a new network takes its model from the configuration
            spec = dict(case["cfg"]["model"])


def expm(h, t):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-t * w)) @ v.T


def exact(case, A0, lost=0.0):
    """Site tensors of the exactly evolved state."""
    c, kind = case["cfg"], case["kind"]
    sites = list(A0)
    if kind in ("diag", "entangled"):
        tot = {b: sum(t * np.diag(work.bond_term(m, b)) for m, t in periods(case)) for b in zz.bonds(c)}
        loc = {s: sum((t * np.diag(work.site_term(m, s)) for m, t in periods(case) if work.site_term(m, s) is not None),
                      np.zeros(c["phys"])) for s in sites}
        if kind == "diag":
            return zz.product(c, lambda s: np.exp(-loc[s]) * work.start_state(c["model"], s), tot)
        G = zz.product(dict(c, D=2), lambda s: np.exp(-loc[s]), tot)
        out = {}
        for s in sites:
            a = A0[s][:2, :2, :2, :2]
            x = np.einsum("lurdp,LURDp->lLuUrRdDp", a, G[s]).reshape(4, 4, 4, 4, -1)
            out[s] = x / np.linalg.norm(x)
        return out
    if kind == "field":
        out = {}
        for s in sites:
            a = A0[s]
            for m, t in periods(case):
                h = work.site_term(m, s)
                if h is not None:
                    a = a @ expm(h, t * (1 - lost * ((c["nx"] == 1) + (c["ny"] == 1))))
            out[s] = a / np.linalg.norm(a)
        return out
    if kind in ("dimer", "vdimer"):
        p, D = c["phys"], c["D"]
        out = {}
        for b in zz.bonds(c):
            s1, s2, k = b
            if not work.bond_term(c["model"], b).any():
                continue
            v = np.kron(work.start_state(c["model"], s1), work.start_state(c["model"], s2))
            for m, t in periods(case):
                v = expm(work.bond_term(m, b), t) @ v
            u, w, vh = np.linalg.svd(v.reshape(p, p))
            for s, leg, f in ((s1, 2 if k == 2 else 1, u * w), (s2, 0 if k == 2 else 3, vh.T)):
                a = np.zeros((D, D, D, D, p))
                ix = [0, 0, 0, 0]
                ix[leg] = slice(0, p)
                a[tuple(ix)] = f.T
                out[s] = a / np.linalg.norm(a)
        return out


def rdms(c, A, wide=False):
    """Both sides of an exact comparison may be evaluated on the same narrow cylinder; against the
    infinite lattice it has to be wide enough that no bond closes around it."""
    return ref.exact_rdms(A, c["nx"], c["ny"], (4096 if c["D"] == 2 else 800) if wide else 300 if c["D"] > 2 else 1024)[0]


def first_order(case, got):
    """Largest deviation from the evolution of finite clusters, in units of T^2, and the size of the effect."""
    c = case["cfg"]
    nx, ny = c["nx"], c["ny"]
    (spec, T), = periods(case)

    def per(s):
        return (s[0] % nx, s[1] % ny)
    worst, effect, where = 0.0, 0.0, None
    for b in zz.bonds(c):
        s1, s2, k = b
        w = ref.cluster_evolve(lambda s: work.site_term(spec, per(s)),
                               lambda s, t, kk: work.bond_term(spec, (per(s), per(t), kk)),
                               lambda s: work.start_state(spec, per(s)), b, T, w=4, h=3, order=3)
        psi = np.kron(work.start_state(spec, s1), work.start_state(spec, s2))
        d = float(np.abs(got[b] - w).max())
        effect = max(effect, float(np.abs(w - np.outer(psi, psi)).max()))
        if not d <= worst:
            worst, where = d, b
    return worst, effect, where, T


def run(case, out):
    c = case["cfg"]
    A0 = start(case)
    try:
        A1 = simulate(case, out, A0)
    except Violation:
        raise
    except Exception as e:
        raise Violation("error", f"the evolution failed: {type(e).__name__}: {str(e)[:300]}")
    got = rdms(c, A1, case["kind"] == "first")
    if case["kind"] == "first":
        worst, effect, where, T = first_order(case, got)
        out.probe("first T^2 x %d" % (2 ** int(np.ceil(np.log2(max(worst / T ** 2, 1e-3))))))
        if not worst < 40 * T * T + 1e-9:
            raise Violation("inexact", f"after a time of {T:.1e} the density matrix of {where} is off by {worst:.2e}, "
                                       f"{worst / T ** 2:.0f} T^2 (the whole effect is {effect:.2e})")
        moved = effect / (40 * T * T)
    else:
        want = rdms(c, exact(case, A0))
        p = work.diff_rdm(got, want, 1e-5)
        if p and 1 in (c["nx"], c["ny"]):
            # recorded in known_findings.txt: of a bond that joins a site to itself, one half is lost
            if not work.diff_rdm(got, rdms(c, exact(case, A0, lost=0.25)), 1e-5):
                raise Violation("narrow-cell", f"{c['nx']}x{c['ny']} cell: of the site term's share of a bond joining a site "
                                               f"to itself only half is applied: {p}")
        d = max(float(np.abs(got[k] - want[k]).max()) for k in got)
        out.probe("exact 1e%d" % int(np.floor(np.log10(max(d, 1e-16)))))
        if p:
            raise Violation("inexact", f"{case['kind']}: {p} from the exactly evolved state")
        first = rdms(c, A0)
        moved = max(float(np.abs(first[k] - want[k]).max()) for k in got) / 1e-5
    out.note([float(np.round(got[k], 10).sum()) for k in got])
    out.probe("kind." + case["kind"])
    out.steps += len(case["ops"])
    out.trivial = not moved > 1
    out.sig = sig_of(c, case["ops"], case.get("ws"))


def shrinks(case):
    if case.get("ws"):
        c = copy.deepcopy(case)
        del c["ws"]
        yield c
    for i, op in enumerate(case["ops"]):
        if op[0] == "evolve" and op[2] > 1:
            c = copy.deepcopy(case)
            c["ops"][i][2] -= 1
            yield c
    for k, v in (("nx", 2), ("ny", 2), ("chi", 3), ("gauge", False), ("als_method", "cholesky"), ("projectors", "half-system")):
        if case["cfg"].get(k) != v:
            c = copy.deepcopy(case)
            c["cfg"][k] = v
            yield c
