"""M02: renormalized boundaries give the exact expectation values of the state."""
import copy
import re

import numpy as np
import torch

from .. import ops as O
from .. import ref, work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "M02"
LEVEL = "exploration"
NOTE = ("Seeded search over states, unit cells, schedules of directional moves and histories; density matrices and measurements "
        "compared with an independent exact contraction of the infinite lattice.")
PLAN = {"quick": 200, "thorough": 6000, "case_timeout": 300}
RULE = ("A case brings a random state of a random unit cell (1x1 to 4x3) to a converged boundary in one of several ways: full sweeps, "
        "a random fair schedule of directional moves (every row and column in every direction in each round, in random order, "
        "with repetitions), sweeps and moves mixed with changes of chi, an evolution, a checkpoint loaded into another network, "
        "or sweeps on 2-4 ranks. Density matrices of every site and every bond, the energy and all averaged observables of a "
        "model with different terms on every site and bond (operators as Pauli matrices or tensors) must equal those of the "
        "infinite state, contracted by an independent program on infinitely long cylinders; the printed table must show the value of "
        "every site and bond. States are random and weakly "
        "entangled (the allowed difference follows the finite-size effect of the reference: 1e-6 plus the change between "
        "two circumferences), decoupled strongly entangled chains along x or y (reference exact: 1e-7), product states (1e-10), "
        "or reached by evolution.")
DISTINCT = "hash of (configuration, history, state)"
REAL = ["all of acetn"]
STUB = ["torch.distributed (simulated) in distributed cases", "clocks", "console", "random generator state"]
ASSUME = ["the state has a finite correlation length, small against the number of sweeps made"]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=3, nmin=1, chis=(8,), steps=(14,), phys=(2, 2, 3))
    how = rng.choice(["sweeps", "moves", "moves", "mixed", "evolve", "load", "dist"])
    state = rng.choice(["weak", "weak", "rows", "cols", "product", "chains"])
    if rng.random() < 0.1:
        c.update(nx=rng.choice([4, 5, 2]), ny=rng.choice([2, 1]))
        if rng.random() < 0.5:
            c["nx"], c["ny"] = c["ny"], c["nx"]
    if rng.random() < 0.1 and state != "weak":
        c["D"] = 3
        c["chi"] = 9
    if how == "evolve":
        state = "weak"
        c.update(phys=2, D=2, nx=rng.choice([2, 2, 3]), ny=2, als_niter=10)
        c["model"] = O.rand_model(rng, 2)
    if state in ("rows", "cols"):
        c["steps"] = 40
    if rng.random() < 0.15 and how != "evolve":
        c["dtype"] = "float32"
    c["model"] = dict(c["model"])
    if "kind" in c["model"]:
        c["model"].update(kind="random", phys=c["phys"], bobs=rng.random() < 0.6, sparse_sites=rng.random() < 0.3,
                          wrap=rng.choice(["tensor", "pauli"]), g=rng.choice([0.0, 0.7]))
    case = {"cfg": c, "how": how, "state": state, "sseed": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30),
            "eps": rng.choice([0.1, 0.1, 0.2]), "extra": rng.randrange(1 << 30)}
    if how == "dist":
        case["ws"] = rng.choice([2, 3, 4])
    return case


def make_state(case):
    c, kind = case["cfg"], case["state"]
    D, p = c["D"], c["phys"]
    if kind == "weak":
        return work.random_state(c, case["sseed"], eps=case["eps"])
    A = {}
    for x in range(c["nx"]):
        for y in range(c["ny"]):
            r = work._rng(case["sseed"], x, y)
            a = np.zeros((D,) * 4 + (p,))
            v = r.normal(size=p)
            v /= np.linalg.norm(v)
            along = {"rows": "x", "cols": "y", "product": ""}.get(kind)
            if kind == "chains":
                # a weak random state whose legs are mixed by a random change of basis on every bond
                along = ""
            if along == "x":
                a[:, 0, :, 0, :] = 0.6 * r.uniform(-1, 1, (D, D, p))
                a[0, 0, 0, 0] += v
            elif along == "y":
                a[0, :, 0, :, :] = 0.6 * r.uniform(-1, 1, (D, D, p))
                a[0, 0, 0, 0] += v
            else:
                a[0, 0, 0, 0] = v
            A[(x, y)] = a
    while kind in ("rows", "cols") and gap(A, c, kind) > 0.5:
        # correlations must decay within the sweeps made
        for a in A.values():
            v = a[0, 0, 0, 0].copy()
            a *= 0.8
            a[0, 0, 0, 0] = v
    if kind == "chains":
        A = work.random_state(c, case["sseed"], eps=0.1)
        for (s1, s2, k) in work.bonds_of(_Cell(c)):
            r = work._rng(case["sseed"], "gauge", s1, s2, k)
            g = np.eye(D) + 0.5 * r.uniform(-1, 1, (D, D))
            l1, l2 = (2, 0) if k == 2 else (1, 3)
            A[s1] = np.moveaxis(np.tensordot(A[s1], g, axes=([l1], [0])), -1, l1)
            A[s2] = np.moveaxis(np.tensordot(np.linalg.inv(g), A[s2], axes=([1], [l2])), 0, l2)
    return {s: a / np.linalg.norm(a) for s, a in A.items()}


def gap(A, c, kind):
    """Largest ratio of the two leading transfer eigenvalues over one period of a chain."""
    D, worst = c["D"], 0.0
    for j in range(c["ny"] if kind == "rows" else c["nx"]):
        T = np.eye(D * D)
        for i in range(c["nx"] if kind == "rows" else c["ny"]):
            a = A[(i, j)][:, 0, :, 0] if kind == "rows" else A[(j, i)][0, :, 0, :].transpose(1, 0, 2)
            T = T @ np.einsum("lrp,LRp->lLrR", a, a).reshape(D * D, D * D)
        w = np.sort(np.abs(np.linalg.eigvals(T)))[::-1]
        if len(w) > 1:
            worst = max(worst, w[1] / w[0])
    return worst


class _Cell:
    def __init__(self, c):
        self.nx, self.ny = c["nx"], c["ny"]


def schedule(case, rounds):
    """Random fair order of directional moves."""
    import random
    r = random.Random(case["extra"])
    c = case["cfg"]
    out = []
    for _ in range(rounds):
        rnd = [["move", d, i] for d in O.MOVES for i in range(c["nx"] if d in ("left", "right") else c["ny"])]
        rnd += [r.choice(rnd) for _ in range(r.randrange(4))]
        r.shuffle(rnd)
        out += rnd
    return out


def history(case, p, d, ops_probe):
    import random
    r = random.Random(case["extra"] + 1)
    c, how, ip = case["cfg"], case["how"], d.ip
    if how in ("sweeps", "dist"):
        ip.renormalize()
    elif how == "moves":
        for op in schedule(case, c["steps"]):
            d.do(op)
            ops_probe[0] += 1
    elif how == "mixed":
        for _ in range(3):
            ip.set_chi(r.choice([2, 3, 5, 10]))
            ip.config.ctmrg.steps = r.choice([1, 2])
            ip.renormalize()
            for op in schedule(case, 1)[:r.randint(1, 8)]:
                d.do(op)
        ip.config.ctmrg.steps = c["steps"]
        ip.set_chi(c["chi"])
        ip.renormalize()
    elif how == "evolve":
        ip.renormalize()
        # an evolution leaves a renormalized network
        if r.random() < 0.5:
            ip.config.evolution.update_type = r.choice(["full", "simple"])
        ip.evolve(0.03, 2)
        if r.random() < 0.3:
            ip.renormalize()
    elif how == "load":
        ip.renormalize()
        d.do(["save", "x.pt"])
        if r.random() < 0.5:
            d.ip = work.new_network(p, c)
        else:
            ip.set_chi(2)
            d.do(["move", "left", 0])
            d.do(["move", "up", 0])
        d.do(["load", "x.pt"])
    ip = d.ip
    before = len(p.stdout.buf)
    m = work.measure_dict(ip.measure())
    m = m, "".join(p.stdout.buf[before:]) if d.rank == 0 else None
    return work.rdms(p, ip), m, {s: ip[s]["A"].detach().double().numpy().copy() for s in work.sites_of(ip)}


def observables(m):
    X, Z = np.array([[0, 1], [1, 0]]), np.diag([1.0, -1.0])
    if m.get("name") == "ising":
        return {"sx": lambda s: X, "sz": lambda s: Z}
    if m.get("name") == "heisenberg":
        sg = lambda s: 1 if sum(s) % 2 == 0 else -1
        return {"sx": lambda s: sg(s) * X, "sz": lambda s: sg(s) * Z}
    return {"obs": lambda s: work.observable(m, s)}


def expected(case, rho):
    """What measure() must return, from exact density matrices."""
    c = case["cfg"]
    m, p = c["model"], c["phys"]
    sites = [k for k in rho if len(k) == 2]
    bonds = [k for k in rho if len(k) == 3]
    X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1.0, -1.0])
    out = {}
    if m.get("name") == "ising":
        h1 = lambda s: -m["params"]["hx"] * X
        h2 = lambda b: -m["params"]["jz"] * np.kron(Z, Z)
    elif m.get("name") == "heisenberg":
        h1 = lambda s: None
        h2 = lambda b: 0.25 * m["params"]["J"] * sum(np.kron(o, o) for o in (X, Y, Z)).real
    else:
        h1 = lambda s: work.site_term(m, s)
        h2 = lambda b: work.bond_term(m, b)
        if m.get("bobs"):
            out["bobs"] = np.mean([np.trace(rho[b] @ work.bond_observable(m, b)) for b in bonds])
    for k, o in observables(m).items():
        out[k] = np.mean([np.trace(rho[s] @ o(s)) for s in sites])
    out["Energy"] = (sum(np.trace(rho[s] @ h1(s)) for s in sites if h1(s) is not None)
                     + sum(np.trace(rho[b] @ h2(b)) for b in bonds)) / len(sites)
    return out


def table(case, rho, text, out):
    """The printed values of every site and bond."""
    c, m = case["cfg"], case["cfg"]["model"]
    for k in rho:
        if len(k) == 2:
            want = [o(k) for o in observables(m).values()]
            head = re.escape(str(k))
        else:
            want = [work.bond_observable(m, k)] if m.get("bobs") else []
            head = re.escape(str(k[0])) + r"\s+" + re.escape(str(k[1]))
        if not want:
            continue
        want = [np.trace(rho[k] @ o).real for o in want]
        num = r"(-?\d+\.\d+(?:e[-+]\d+)?)"
        rows = re.findall("^" + head + r"\s+" + r"\s+".join([num] * len(want)) + r"\s*$", text, re.M)
        rows = [[float(x) for x in (r if isinstance(r, tuple) else (r,))] for r in rows]
        if not any(max(abs(a - b) for a, b in zip(r, want)) < (2e-4 if c.get("dtype") == "float32" else 2e-8) for r in rows):
            raise Violation("table", f"{case['how']}, {case['state']} state: the printed row of {k} is {rows or 'missing'}, "
                                     f"its density matrix gives {want}")
        out.probe("printed rows checked")


def run(case, out):
    c = case["cfg"]
    A = make_state(case)
    steps = [0]
    with O.scratch() as wd:
        if case["how"] == "dist":
            cl = Cluster(case["ws"], case["seed"], case.get("choices"), [case["oseed"] + r for r in range(case["ws"])])
            res = {}

            def body(r):
                r.driver = d = O.Driver(r.proc, c, A, wd, r.rank)
                d.create()
                res[r.rank] = history(case, r.proc, d, steps)
            try:
                guarded(lambda: cl.run(body), "distributed run")
            finally:
                cl.finish(out)
            for r in cl.ranks:
                if r.error is not None:
                    raise Violation("failed", f"rank {r.rank}: {type(r.error).__name__}: {str(r.error)[:300]}")
            got, m, A1 = res[case["oseed"] % case["ws"]]
        else:
            p = Process("p", torch_seed=case["oseed"])
            with p:
                p.load()
                d = O.Driver(p, c, A, wd)
                d.create()
                try:
                    got, m, A1 = history(case, p, d, steps)
                except (RuntimeError, ValueError) as e:
                    raise Violation("failed", f"{type(e).__name__}: {str(e)[:300]}")
                d.ip = None
    m, text = m
    if text is not None:
        table(case, got, text, out)
    decoupled = case["state"] in ("rows", "cols", "product") and case["how"] != "evolve"
    if decoupled:
        # the reference needs only one row of each kind, whatever the direction
        B, nx, ny = (ref._swap_xy(A1), c["ny"], c["nx"]) if case["state"] == "cols" else (A1, c["nx"], c["ny"])
        want = narrow(B, nx, ny)
        if case["state"] == "cols":
            want = swap_keys(want)
        tol = 1e-10 if case["state"] == "product" else 1e-7
        err = 0.0
    else:
        want, L = ref.exact_rdms(A1, c["nx"], c["ny"], 4096)
        n = {L2: w for w, L2 in (ref.exact_rdms(A1, c["nx"], c["ny"], s) for s in (256, 64, 16)) if L2 < L}
        if not n:
            out.trivial = True
            out.sig = sig_of(case)
            return
        other = n[max(n)]
        err = max(float(np.abs(want[k] - other[k]).max()) for k in want)
        tol = 1e-6 + err
    if c.get("dtype") == "float32":
        tol = max(tol, 2e-4)
    worst, where = max(((float(np.abs(got[k] - want[k]).max()), k) for k in want), key=lambda x: x[0])
    out.probe(f"{case['state']}.1e%d" % int(np.floor(np.log10(max(worst, 1e-16)))))
    out.probe("rel.1e%d" % int(np.floor(np.log10(max(worst / tol, 1e-16)))))
    what = f"{case['how']}, {case['state']} state"
    if not worst <= tol:
        raise Violation("rdm", f"{what}: density matrix of {where} differs by {worst:.2e} from that of the infinite state (allowed {tol:.1e})")
    for k in got:
        a = np.trace(got[k])
        if not abs(a - 1) < 1e-6:
            raise Violation("rdm", f"{what}: trace {a} of {k}")
    for name, rho, t in (("its own", got, 1e-9 if c.get("dtype") != "float32" else 1e-4), ("the exact", want, 60 * tol)):
        exp = expected(case, rho)
        if set(exp) != set(m):
            raise Violation("keys", f"{what}: measured {sorted(m)}, expected {sorted(exp)}")
        for k in exp:
            if not abs(m[k] - exp[k]) <= t * (1 + abs(exp[k])):
                raise Violation("average", f"{what}: measured {k} is {m[k]}, from {name} density matrices {exp[k].real}")
    out.note((round(float(worst / tol), 3)))
    out.steps += max(steps[0], 1)
    out.probe("how." + case["how"])
    out.sig = sig_of(case)


def narrow(A, nx, ny):
    return ref.Cylinder(A, nx, ny, 1 if ny > 1 else 2, maxit=5000).all()


def swap_keys(r):
    out = {}
    for k, v in r.items():
        if len(k) == 2:
            out[(k[1], k[0])] = v
        else:
            s1, s2, d = k
            out[((s1[1], s1[0]), (s2[1], s2[0]), 3 - d)] = v
    return out


def shrinks(case):
    for k, v in (("how", "sweeps"), ("state", "weak")):
        if case[k] != v and case["how"] != "dist":
            yield dict(copy.deepcopy(case), **{k: v})
    for k in ("nx", "ny"):
        if case["cfg"][k] > 2:
            d = copy.deepcopy(case)
            d["cfg"][k] = 2
            yield d
