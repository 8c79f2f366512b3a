"""L01: a ground-state search converges to the ground state, whatever happened on the way."""
import copy
import itertools

import numpy as np

from .. import faults as F
from .. import ops as O
from .. import work, zz
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "L01"
LEVEL = "exploration"
NOTE = ("Seeded search over Hamiltonians, unit cells, options and interrupted, killed, resumed and re-partitioned searches against a "
        "linked-cluster expansion of the exact ground-state energy.")
PLAN = {"quick": 80, "thorough": 8000, "case_timeout": 400}
RULE = ("A case is a ground-state search over 1-3 process lives. Each life (one process, or in one life 2-4 simulated ranks under a "
        "random schedule) starts from scratch or from the last checkpoint and performs a random history of evolutions with growing "
        "or shrinking steps, renormalizations, changes of chi, of the update type and of model parameters (set back before the end), "
        "forks and checkpoints, some hit by a lack of memory, a failing factorisation or an interrupt at a random tensor operation; "
        "it ends by a kill at a random tensor operation or normally. Afterwards, without faults, a bounded number of steps of "
        "shrinking size follows; in some cases all steps are small. The energy then measured must equal the exact ground-state energy of the infinite lattice, "
        "computed by a linked-cluster expansion (all clusters of up to 4 bonds, dense diagonalisation), and no energy measured after "
        "a renormalization under the final Hamiltonian, at any time, may lie below it. Hamiltonians: random site- and bond-dependent "
        "terms around isolated sites; the built-in Ising model in strong and weak field. "
        "Non-trivial: the bond terms contribute more than 20 x the tolerance to the energy.")
DISTINCT = "hash of (configuration, histories)"
REAL = ["all of acetn"]
STUB = ["torch.distributed (simulated) in distributed lives", "clocks", "console", "environment variables", "random generator state"]
ASSUME = ["the linked-cluster expansion has converged to the tolerance (checked by its last order in every case)",
          "for weakly coupled gapped Hamiltonians bond dimension 2 (3) represents the ground state to the tolerance"]
FINAL = [["evolve", 0.2, 25], ["evolve", 0.1, 15], ["evolve", 0.03, 15], ["evolve", 0.01, 10]]
SMALL = [["evolve", 0.03, 150], ["evolve", 0.02, 60], ["evolve", 0.005, 10]]


# ---- exact energy ----------------------------------------------------------------------
def lowest(H):
    """Lowest eigenvalue (Lanczos with full orthogonalisation for larger matrices)."""
    if len(H) <= 32:
        return np.linalg.eigvalsh(H)[0]
    v = np.random.RandomState(5).normal(size=len(H))
    Q, T, last = np.zeros((len(H), 0)), np.zeros((0, 0)), None
    v /= np.linalg.norm(v)
    for n in range(1, len(H) + 1):
        Q = np.column_stack([Q, v])
        w = H @ v
        T = np.pad(T, (0, 1))
        T[:, -1] = T[-1, :] = Q.T @ w
        for _ in range(2):
            w -= Q @ (Q.T @ w)
        b = np.linalg.norm(w)
        if n % 10 == 0 or b < 1e-10 or n == len(H):
            e = np.linalg.eigvalsh(T)[0]
            if b < 1e-10 or (last is not None and abs(e - last) < 1e-12 * max(1, abs(e))):
                return e
            last = e
        v = w / b
    return e


def expansion(c, spec, order):
    """Per site: ground-state energy, sum of the sizes of all contributions of bonds, contribution of the largest clusters."""
    nx, ny, p = c["nx"], c["ny"], c["phys"]

    def per(s):
        return (s[0] % nx, s[1] % ny)

    def links(s):
        """The bonds of a site of the infinite lattice."""
        for k, (dx, dy) in ((2, (1, 0)), (1, (0, 1))):
            yield s, (s[0] + dx, s[1] + dy), k
            yield (s[0] - dx, s[1] - dy), s, k

    def canon(cl):
        x, y = min(s for b in cl for s in b[:2])
        dx, dy = x - x % nx, y - y % ny
        return frozenset(((a - dx, b - dy), (c - dx, d - dy), k) for (a, b), (c, d), k in cl)

    def h1(s):
        m = work.site_term(spec, per(s)) if "kind" in spec else None
        if spec.get("name") == "ising":
            m = -spec["params"]["hx"] * np.array([[0., 1.], [1., 0.]])
        return m

    def h2(s1, s2, k):
        if spec.get("name") == "ising":
            return -spec["params"]["jz"] * np.diag([1., -1., -1., 1.])
        return work.bond_term(spec, (per(s1), per(s2), k))

    def energy(sites, bonds):
        sites = sorted(sites)
        n = len(sites)
        H = np.zeros((p,) * (2 * n))
        one = np.eye(p ** n).reshape((p,) * (2 * n))

        def add(m, ix):
            nonlocal H
            m = m.reshape((p,) * (2 * len(ix)))
            t = np.tensordot(m, one, axes=(range(len(ix), 2 * len(ix)), ix))
            H = H + np.moveaxis(t, range(len(ix)), ix)
        for i, s in enumerate(sites):
            m = h1(s)
            if m is not None:
                add(m, [i])
        for s1, s2, k in bonds:
            add(h2(s1, s2, k), [sites.index(s1), sites.index(s2)])
        return lowest(H.reshape(p ** n, p ** n))

    memo = {}

    def weight(cl):
        """Weight of a connected set of bonds."""
        cl = canon(cl)
        if cl in memo:
            return memo[cl]
        sites = {s for b in cl for s in b[:2]}
        w = energy(sites, cl) - sum(vertex(s) for s in sites)
        es = list(cl)
        for n in range(1, len(es)):
            for sub in itertools.combinations(es, n):
                if connected(sub):
                    w -= weight(frozenset(sub))
        memo[cl] = w
        return w

    vmemo = {}

    def vertex(s):
        if per(s) not in vmemo:
            vmemo[per(s)] = energy([s], ())
        return vmemo[per(s)]

    def connected(es):
        seen, rest = set(es[0][:2]), list(es[1:])
        while rest:
            hit = [b for b in rest if b[0] in seen or b[1] in seen]
            if not hit:
                return False
            for b in hit:
                seen |= set(b[:2])
                rest.remove(b)
        return True

    home = [(x, y) for x in range(nx) for y in range(ny)]
    terms, size = [sum(vertex(s) for s in home)], 0.0
    level = {canon([b]) for s in home for b in links(s)}
    for n in range(1, order + 1):
        terms.append(sum(weight(cl) for cl in level))
        size += sum(abs(weight(cl)) for cl in level)
        if n < order:
            level = {canon(cl | {b}) for cl in level for s in {s for b in cl for s in b[:2]} for b in links(s) if b not in cl}
    return sum(terms) / (nx * ny), size / (nx * ny), abs(terms[-1]) / (nx * ny)


def reference(case):
    c, spec = case["cfg"], case["cfg"]["model"]
    if spec.get("name") == "ising":
        j, h = spec["params"]["jz"], spec["params"]["hx"]
        if h < j:
            # flipping one spin of the aligned state costs 8 j, two neighbours 12 j
            return -2 * j - h * h / (8 * j), h * h / (8 * j), h ** 4 / (512 * j ** 3)
        return expansion(c, dict(spec, kind="ising"), 4)
    return expansion(c, spec, 3 if c["phys"] == 3 else 4)


# ---- cases -------------------------------------------------------------------------------
def gen(rng, i, tier):
    kind = rng.choice(["gapped", "gapped", "gapped", "ising", "ferro"])
    p = 3 if kind == "gapped" and rng.random() < 0.2 else 2
    c = {"nx": rng.choice([2, 2, 3]), "ny": rng.choice([2, 2, 3]), "phys": p, "D": 2 if p == 2 else rng.choice([2, 3]),
         "chi": rng.choice([6, 8, 10]), "steps": rng.choice([3, 5]), "update": rng.choice(["full", "full", "simple", "simple"]),
         "gauge": rng.random() < 0.6, "als_method": rng.choice(["cholesky", "cholesky", "pinv"]), "als_niter": rng.choice([10, 20, 50]),
         "projectors": rng.choice(["half-system", "full-system"]), "svd_type": rng.choice(["rsvd", "full-rank"])}
    if p == 3:
        c["nx"] = c["ny"] = 2
    if kind in ("ising", "ferro"):
        j = round(rng.uniform(0.6, 1.4), 3)
        h = round(j * (rng.uniform(4.5, 7) if kind == "ising" else rng.uniform(0.3, 0.7)), 3)
        c["model"] = {"name": "ising", "params": {"jz": j, "hx": h}}
        change = {rng.choice(["jz", "hx"]): round(rng.uniform(0.5, 3), 3)}
        back = {k: c["model"]["params"][k] for k in change}
    else:
        J = round(rng.uniform(0.1, 0.2), 3)
        c["model"] = {"kind": kind, "seed": rng.randrange(10 ** 6), "phys": p, "J": J, "wrap": rng.choice(["tensor", "pauli"])}
        change, back = {"J": round(rng.uniform(0.0, 1.0), 3)}, {"J": J}
    lives = []
    small = c["update"] == "simple" and rng.random() < 0.6
    n = rng.choice([1, 1, 2, 2, 3])
    dist = rng.randrange(n) if rng.random() < 0.4 else None
    for j in range(n):
        ws = rng.choice([2, 3, 4]) if j == dist else 0
        ops = []
        for k in range(rng.randint(1, 4)):
            x = rng.random()
            e = ["evolve", rng.choice([0.2, 0.1, 0.05, 0.02] if not small else [0.03, 0.02, 0.01]), rng.choice([1, 2, 4, 8] if not ws else [1, 2])]
            if not ws and rng.random() < 0.35:
                e = ["fault", int(10 ** rng.uniform(0, 4)), rng.choice(["oom", "memory", "linalg", "interrupt"]), e]
            ops.append(e)
            if x < 0.2:
                ops += [["renorm"], ["measure"]]
            elif x < 0.3:
                ops.append(["chi", rng.choice([4, 6, 9])])
            elif x < 0.4:
                ops.append(["set", rng.choice(["simple", "full"])])
            elif x < 0.5:
                ops += [["params", change], ["evolve", 0.1 if not small else 0.02, rng.choice([1, 3])], ["params", back]]
            elif x < 0.7:
                ops.append(["save", "ck.pt"])
            elif x < 0.8:
                ops += [["save", "ck.pt"], ["evolve", 0.1 if not small else 0.02, 2], ["load", "ck.pt"]]
            elif x < 0.85:
                ops.append(["fork", "o"])
        life = {"ops": ops, "ws": ws}
        if j < n - 1 and not ws and rng.random() < 0.6:
            life["kill"] = int(10 ** rng.uniform(2, 4.3))
        elif j < n - 1:
            ops.append(["save", "ck.pt"])
        lives.append(life)
    small = small and not lives[-1]["ws"]
    if dist == n - 1:
        # the long final evolution runs on all ranks, too
        c["nx"] = c["ny"] = 2
    return {"kind": kind, "cfg": c, "lives": lives, "sweeps": rng.choice([0, 0, 1, 2]),
            "small": small, "oseed": rng.randrange(1 << 30)}


class Killed(BaseException):
    pass


def script(d, case, life, last, first, seen, out):
    c = case["cfg"]
    d.create()
    lead = d.rank == 0
    if not first and case["saved"]:
        d.do(["load", "ck.pt"])
    for op in life["ops"] + ([["chi", c["chi"]], ["set", c["update"]]] + (SMALL if case.get("small") else FINAL) + [["renorm"]] * case["sweeps"] + [["measure"]] if last else []):
        if op[0] == "set":
            d.ip.config.evolution.update_type = op[1]
            continue
        if op[0] == "save":
            d.do(["save0", op[1]])
            if lead:
                case["saved"] = True
            if life["ws"]:
                d.do(["renorm"])      # a barrier: the file is complete before anyone goes on
            continue
        if op[0] == "load" and not case["saved"]:
            continue
        r = d.do(op)
        if op[0] == "fault":
            if r == "completed":
                out.probe("fault not reached")
            else:
                out.count("torch-op " + op[2])
        if op[0] == "measure" and lead:
            seen.append(r["Energy"])
    p = work.shape_problem(d.ip)
    if p:
        raise Violation("incompatible", p)
    d.ip = None
    d.others.clear()


def live(case, j, wd, seen, out):
    c, life = case["cfg"], case["lives"][j]
    last = j == len(case["lives"]) - 1
    seeds = case["oseed"] + 10 * j
    if not life["ws"]:
        p = Process(f"p{j}", torch_seed=seeds)
        with p:
            p.load()
            d = O.Driver(p, c, None, wd)
            if life.get("kill"):
                try:
                    with F.Counter(lambda i, name, k: Killed() if i == life["kill"] else None):
                        script(d, case, life, last, j == 0, seen, out)
                except Killed:
                    out.count("process killed")
                d.ip = None
                d.others.clear()
            else:
                script(d, case, life, last, j == 0, seen, out)
        return
    cl = Cluster(life["ws"], case["seed"], case.get("choices"), [seeds + r for r in range(life["ws"])])

    def body(r):
        script(O.Driver(r.proc, c, None, wd, r.rank), case, life, last, j == 0, seen, out)
    try:
        guarded(lambda: cl.run(body), "distributed life")
    finally:
        cl.finish(out)
    for r in sorted((r for r in cl.ranks if r.error is not None), key=lambda r: "Connection closed" in str(r.error)):
        raise r.error


def run(case, out):
    c = case["cfg"]
    e0, size, _ = reference(case)
    seen = []
    case["saved"] = False
    with O.scratch() as wd:
        for j in range(len(case["lives"])):
            try:
                live(case, j, wd, seen, out)
            except Violation:
                raise
            except Exception as e:
                raise Violation("error", f"life {j}: {type(e).__name__}: {str(e)[:300]}")
    e = seen[-1]
    out.probe("%s off by 1e%d" % (case["kind"], np.ceil(np.log10(abs(e - e0) / size + 1e-6))))
    out.note([round(float(x), 9) for x in seen])
    tol = (0.05 if case["kind"] == "gapped" else 0.02) * size
    if not abs(e - e0) <= tol:
        raise Violation("not-the-ground-state", f"the search ended at an energy of {e:.6f} per site; the ground state has {e0:.6f} "
                                                f"(the bond terms contribute {size:.6f})")
    for x in seen[:-1]:
        if not x >= e0 - tol:
            raise Violation("below-the-ground-state", f"an energy of {x:.6f} per site was measured on the way; the ground state has {e0:.6f}")
    out.steps += sum(len(l["ops"]) for l in case["lives"])
    out.sig = sig_of(c, case["lives"])


def shrinks(case):
    for i, life in enumerate(case["lives"]):
        if len(case["lives"]) > 1:
            c = copy.deepcopy(case)
            del c["lives"][i]
            yield c
        if life["ws"]:
            c = copy.deepcopy(case)
            c["lives"][i]["ws"] = 0
            yield c
        for j, op in enumerate(life["ops"]):
            if op[0] == "params":
                continue
            c = copy.deepcopy(case)
            if op[0] == "fault":
                c["lives"][i]["ops"][j] = op[3]
            else:
                del c["lives"][i]["ops"][j]
            yield c
