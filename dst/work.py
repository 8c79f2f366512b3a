"""Workloads: configurations, models and operations applied to networks, and
snapshots of what a user can observe."""
import hashlib

import numpy as np
import torch


# ---- models -----------------------------------------------------------------
def _rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))


def sym(rng, n):
    m = rng.uniform(-1, 1, (n, n))
    return (m + m.T) / 2


def site_term(spec, site):
    """One-site Hamiltonian of a spec, as a numpy matrix (or None)."""
    p = spec.get("phys", 2)
    kind = spec["kind"]
    g = spec.get("g", 0.0)
    if kind == "diag":
        if spec.get("sparse_sites") and _rng(spec["seed"], "has", site).rand() < 0.5:
            return None
        return g * np.diag(_rng(spec["seed"], "site", site).uniform(-1, 1, p)) if g else None
    if kind in ("random", "field"):
        if spec.get("sparse_sites") and _rng(spec["seed"], "has", site).rand() < 0.5:
            return None
        return g * sym(_rng(spec["seed"], "site", site), p) if g else None
    if kind == "gapped":
        return levels(_rng(spec["seed"], "site", site), [0.0, 2.0, 3.0][:p])
    return None


def levels(rng, w):
    """A random symmetric matrix with given eigenvalues."""
    q = np.linalg.qr(rng.normal(size=(len(w), len(w))))[0]
    return (q * np.array(w)) @ q.T


def bond_term(spec, bond):
    """Two-site Hamiltonian on (s1, s2, k), as a numpy (p^2 x p^2) matrix."""
    p = spec.get("phys", 2)
    kind = spec["kind"]
    s1, s2, k = bond
    key = (tuple(s1), tuple(s2), k)
    J = spec.get("J", 1.0)
    if kind in ("random", "gapped"):
        return J * sym(_rng(spec["seed"], "bond", key), p * p)
    if kind == "field":
        return np.zeros((p * p, p * p))
    if kind == "diag":
        # any diagonal interaction: its gates commute and have operator rank p
        if "weak" in spec:
            J = J * 10 ** _rng(spec["seed"], "size", key).uniform(spec["weak"], 0)
        return J * np.diag(_rng(spec["seed"], "bond", key).uniform(-1, 1, p * p))
    if kind == "zz":
        w = _rng(spec["seed"], "bond", key).uniform(0.3, 1.0)
        z = np.diag(np.linspace(1, -1, p))
        return -J * w * np.kron(z, z)
    if kind == "dimer":
        # disjoint bonds: every second bond of every row (nx even)
        if k == 2 and s1[0] % 2 == 0:
            return J * sym(_rng(spec["seed"], "bond", key), p * p)
        return np.zeros((p * p, p * p))
    if kind == "vdimer":
        if k == 1 and s1[1] % 2 == 0:
            return J * sym(_rng(spec["seed"], "bond", key), p * p)
        return np.zeros((p * p, p * p))
    raise ValueError(kind)


def start_state(spec, site):
    p = spec.get("phys", 2)
    v = _rng(spec["seed"], "start", site).uniform(-0.6, 1, p)
    v[1 if spec.get("far") else 0] += 1.2 if spec.get("far") else 0.7
    return v / np.linalg.norm(v)


def observable(spec, site):
    return sym(_rng(spec["seed"], "obs", site), spec.get("phys", 2))


def bond_observable(spec, bond):
    s1, s2, k = bond
    return sym(_rng(spec["seed"], "bobs", (tuple(s1), tuple(s2), k)), spec.get("phys", 2) ** 2)


def make_model_class(proc, spec, wrap="tensor", cache=None):
    """A Model subclass of proc's package for a spec. wrap: how operators are returned."""
    Model = proc.mod("model").Model if hasattr(proc.mod("model"), "Model") else proc.mod("model.model").Model
    Pauli = proc.mod("model.pauli_matrix").PauliMatrix
    store = {} if cache is None else cache

    class SpecModel(Model):
        def _op(self, key, m):
            if m is None:
                return None
            key = (key, str(self.dtype), repr(sorted((k, v) for k, v in (self.params or {}).items() if k in ("J", "g", "seed"))))
            if cache is not None and key in store:
                return store[key]
            if hasattr(cache, "made"):
                cache.made[key] = m
            t = torch.tensor(m, dtype=self.dtype, device=self.device)
            o = t if wrap == "tensor" else Pauli("O", self.dtype, self.device, mat=t)
            store[key] = o
            return o

        def _spec(self):
            s = dict(spec)
            for k in ("J", "g", "seed"):
                if self.params and k in self.params:
                    s[k] = self.params[k]
            return s

        def initial_site_state(self, site):
            return [float(x) for x in start_state(self._spec(), site)]

        def one_site_hamiltonian(self, site=None):
            return self._op(("h1", site), site_term(self._spec(), site))

        def two_site_hamiltonian(self, bond=None):
            # the direction of a bond is taken from the library, as a user would
            s1, s2, _ = bond
            k = {"-x": 0, "+y": 1, "+x": 2, "-y": 3}.get(self.bond_direction(bond))
            return self._op(("h2", tuple(bond)), bond_term(self._spec(), (s1, s2, k)))

        def one_site_observables(self, site=None):
            return {"obs": self._op(("o1", site), observable(self._spec(), site))} if spec.get("obs", True) else {}

        def two_site_observables(self, bond=None):
            return {"bobs": self._op(("o2", tuple(bond)), bond_observable(self._spec(), tuple(bond)))} if spec.get("bobs") else {}

    return SpecModel


# ---- configurations -----------------------------------------------------------
def make_cfg(c):
    """Expand a compact case configuration into the user's config dictionary."""
    cfg = {
        "dtype": c.get("dtype", "float64"), "device": "cpu",
        "TN": {"nx": c["nx"], "ny": c["ny"], "dims": {"phys": c.get("phys", 2), "bond": c["D"], "chi": c["chi"]}},
        "ctmrg": {"steps": c.get("steps", 4), "projectors": c.get("projectors", "half-system"),
                  "svd_type": c.get("svd_type", "rsvd"), "disable_progressbar": c.get("quiet", True)},
        "evolution": {"update_type": c.get("update", "full"), "use_gauge_fix": c.get("gauge", True),
                      "als_niter": c.get("als_niter", 20), "als_method": c.get("als_method", "cholesky"),
                      "disable_progressbar": c.get("quiet", True)},
    }
    for k in ("als_tol", "als_epsilon", "positive_approx_cutoff", "gauge_fix_atol"):
        if k in c:
            cfg["evolution"][k] = c[k]
    for k in ("svd_cutoff", "rsvd_niter", "rsvd_oversampling"):
        if k in c:
            cfg["ctmrg"][k] = c[k]
    m = c.get("model", {"name": "ising", "params": {"jz": 1.0, "hx": 2.5}})
    if "name" in m:
        cfg["model"] = {"name": m["name"], "params": dict(m["params"])}
    return cfg


def new_network(proc, c, src=None):
    cfg = make_cfg(c)
    ip = proc.Ipeps(cfg) if src is None else proc.Ipeps(cfg, ipeps=src)
    m = c.get("model")
    if m and "kind" in m:
        ip.set_model(make_model_class(proc, m, m.get("wrap", "tensor")), {"J": m.get("J", 1.0), "g": m.get("g", 0.0)})
    return ip


# ---- states ---------------------------------------------------------------------
def random_state(c, seed, eps=0.35, entangled=True, boundary=True):
    """Site tensors (numpy) of a random state near a product state."""
    out = {}
    D, p = c["D"], c.get("phys", 2)
    for x in range(c["nx"]):
        for y in range(c["ny"]):
            r = _rng(seed, "A", x, y)
            a = eps * r.uniform(-1, 1, (D, D, D, D, p)) if entangled else np.zeros((D, D, D, D, p))
            v = r.normal(size=p)
            a[0, 0, 0, 0] += v / np.linalg.norm(v)
            out[(x, y)] = a / np.linalg.norm(a)
    return out


def product_state(c, vec):
    out = {}
    D, p = c["D"], c.get("phys", 2)
    for x in range(c["nx"]):
        for y in range(c["ny"]):
            a = np.zeros((D, D, D, D, p))
            a[0, 0, 0, 0] = vec((x, y))
            out[(x, y)] = a / np.linalg.norm(a)
    return out


def set_state(ip, A):
    """Install site tensors and matching fresh boundaries through the public item interface."""
    for site, a in A.items():
        t = ip[site]
        t["A"] = torch.tensor(a, dtype=ip.dtype)
        t.initialize_corner_tensors()
        t.initialize_edge_tensors()


def seeded_network(proc, c, A):
    """A network created from another one carrying the state A (so evolve keeps it)."""
    src = new_network(proc, c)
    set_state(src, A)
    return new_network(proc, c, src=src)


# ---- observation ------------------------------------------------------------------
def sites_of(ip):
    return [(x, y) for x in range(ip.nx) for y in range(ip.ny)]


def bonds_of(ip):
    """All bonds as (s1, s2, k), independent of the network's own list."""
    nx, ny = ip.nx, ip.ny
    out = [((x, y), ((x + 1) % nx, y), 2) for x in range(nx) for y in range(ny)]
    out += [((x, y), (x, (y + 1) % ny), 1) for y in range(ny) for x in range(nx)]
    return out


def snap(ip):
    """Everything a network holds, as detached copies."""
    out = {}
    for s in sites_of(ip):
        t = ip[s]
        out[s] = (t["A"].detach().clone(), [c.detach().clone() for c in t["C"]], [e.detach().clone() for e in t["E"]])
    return out


def flat(s):
    for site in sorted(s):
        A, C, E = s[site]
        yield (site, "A", 0), A
        for i, c in enumerate(C):
            yield (site, "C", i), c
        for i, e in enumerate(E):
            yield (site, "E", i), e


def diff(s1, s2, tol=0.0, parts="ACE"):
    """None if equal (within tol, relative to the tensor's norm), else a description."""
    if set(s1) != set(s2):
        return f"sites {sorted(s1)} vs {sorted(s2)}"
    for ((k, a), (_, b)) in zip(flat(s1), flat(s2)):
        if k[1] not in parts:
            continue
        if a.shape != b.shape:
            return f"{k}: shape {tuple(a.shape)} vs {tuple(b.shape)}"
        if a.dtype != b.dtype:
            return f"{k}: dtype {a.dtype} vs {b.dtype}"
        if torch.equal(a, b):
            continue
        if tol == 0.0:
            return f"{k}: differs by {(a - b).abs().max().item():.3e}"
        d = (a - b).norm().item()
        if not d <= tol * max(1e-30, b.norm().item()):
            return f"{k}: differs by {d:.3e} (norm {b.norm().item():.3e})"
    return None


def digest(s):
    h = hashlib.sha256()
    for k, t in flat(s):
        h.update(repr((k, tuple(t.shape), str(t.dtype))).encode())
        h.update(t.contiguous().numpy().tobytes())
    return h.hexdigest()[:16]


def measure_dict(m):
    return {k: float(v) for k, v in m.items()}


def diff_meas(a, b, tol=0.0):
    if set(a) != set(b):
        return f"keys {sorted(a)} vs {sorted(b)}"
    for k in a:
        if a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]):
            continue
        if not abs(a[k] - b[k]) <= tol:
            return f"{k}: {a[k]!r} vs {b[k]!r}"
    return None


def rdms(proc, ip):
    """Normalised one- and two-site density matrices of all sites and bonds (numpy)."""
    meas = proc.mod("measurement.rdm")
    Bond = proc.mod("ipeps.bond").Bond
    r = meas.RDM(ip)
    out = {}
    for s in sites_of(ip):
        m = r[s].detach().double().numpy()
        out[s] = m / np.trace(m)
    for b in bonds_of(ip):
        m = r[Bond(*b)].detach().double().numpy()
        p = m.shape[0]
        m = m.reshape(p * p, p * p)
        out[b] = m / np.trace(m)
    return out


def diff_rdm(a, b, tol):
    worst, where = 0.0, None
    for k in a:
        d = float(np.abs(a[k] - b[k]).max())
        if not d <= worst:
            worst, where = d, k
        if d != d:
            return f"density matrix of {k} is not finite"
    if not worst <= tol:
        return f"density matrix of {where} differs by {worst:.3e} (allowed {tol:.1e})"
    return None


def shape_problem(ip, chi=None):
    """Check mutual compatibility, norms and finiteness of all tensors; None if fine."""
    nx, ny = ip.nx, ip.ny
    for s in sites_of(ip):
        t = ip[s]
        A, C, E = t["A"], t["C"], t["E"]
        for name, x in [("A", A)] + [(f"C{i}", c) for i, c in enumerate(C)] + [(f"E{i}", e) for i, e in enumerate(E)]:
            if not torch.isfinite(x).all():
                return f"{name} of {s} is not finite"
            if x.dtype != ip.dtype:
                return f"{name} of {s} has dtype {x.dtype}"
        D = A.shape[:4]
        for k in range(4):
            # edge k carries the bond leg k+1 (E[0] up, E[1] right, E[2] down, E[3] left)
            leg = [1, 2, 3, 0][k]
            if tuple(E[k].shape[2:]) != (D[leg], D[leg]):
                return f"E{k} of {s} has bond legs {tuple(E[k].shape[2:])}, site tensor {D[leg]}"
        # around the site: C0 -E0- C1 -E1- C2 -E2- C3 -E3- C0
        for k in range(4):
            if C[k].shape[1] != E[k].shape[0] or E[k].shape[1] != C[(k + 1) % 4].shape[0]:
                return (f"boundary of {s} does not fit: C{k} {tuple(C[k].shape)}, E{k} {tuple(E[k].shape)}, "
                        f"C{(k+1)%4} {tuple(C[(k+1)%4].shape)}")
        if chi is not None:
            for k in range(4):
                if max(C[k].shape) > chi or max(E[k].shape[:2]) > chi:
                    return f"boundary of {s} exceeds chi={chi}: C{k} {tuple(C[k].shape)}, E{k} {tuple(E[k].shape)}"
    for (s1, s2, k) in bonds_of(ip):
        a1, a2 = ip[s1]["A"], ip[s2]["A"]
        l1, l2 = (2, 0) if k == 2 else (1, 3)
        if a1.shape[l1] != a2.shape[l2]:
            return f"bond {s1}-{s2}: dimensions {a1.shape[l1]} and {a2.shape[l2]}"
        # edges of neighbouring sites continue each other along the bond
        ea, eb = (0, 2) if k == 2 else (3, 1)
        E1, E2 = ip[s1]["E"], ip[s2]["E"]
        if E1[ea].shape[1] != E2[ea].shape[0] or E1[eb].shape[0] != E2[eb].shape[1]:
            return (f"edges along bond {s1}-{s2} do not fit: {tuple(E1[ea].shape)}-{tuple(E2[ea].shape)}, "
                    f"{tuple(E1[eb].shape)}-{tuple(E2[eb].shape)}")
    return None
