"""I03: configuration, models and operators are inputs; settings act on one network."""
import copy
import types

import torch

from .. import ops as O
from .. import work
from ..core import Violation, sig_of
from ..procs import Process

ID = "I03"
LEVEL = "exploration"
NOTE = ("Seeded search over histories of networks sharing user objects; every computation is repeated bit by bit in a fresh "
        "process configured that way from the start.")
PLAN = {"quick": 260, "thorough": 8000, "case_timeout": 300}
RULE = ("A case is a random history on up to four networks of one process that share the user's objects: configuration "
        "dictionaries (also edited by the user in between), parameter dictionaries, model classes returning the same operator "
        "objects again and again, model instances handed to evolve and measure, models registered with the factory and named "
        "in configurations. set_model (with and without names, also the "
        "names of built-in models), set_model_params and set_chi act at random points. After every operation all user objects "
        "are deeply unchanged; every renormalization, evolution and measurement equals, bit for bit, that of a fresh process "
        "whose only network was configured so at the start and carries the same state and random stream. Non-trivial: at "
        "least two networks computed something and a setting was changed.")
DISTINCT = "hash of (configurations, models, history)"
REAL = ["all of acetn"]
STUB = ["clocks", "console", "random generator state"]
ASSUME = ["a name registered by set_model that is not built in belongs to the last network that registered it, for networks that "
          "only name it in their configuration (not exercised)"]
NETS = ["a", "b", "c", "d"]


def gen(rng, i, tier):
    p = rng.choice([2, 2, 2, 3])
    cfgs = []
    base = O.rand_cfg(rng, nmax=2, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 5), steps=(1, 1, 2), phys=(p,), dtypes=("float64", "float64", "float32"))
    base["als_niter"] = rng.choice([3, 6])
    cfgs.append(base)
    for _ in range(rng.randint(0, 1)):
        c = copy.deepcopy(base)
        o = O.rand_cfg(rng, nmax=2, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 5), steps=(1, 2), phys=(p,))
        for k in rng.sample(["nx", "chi", "projectors", "svd_type", "update", "gauge", "als_method", "dtype", "model"], 3):
            c[k] = o[k]
        cfgs.append(c)
    for c in cfgs:
        if "kind" in c["model"]:
            # models of the configuration are built in; custom ones come with set_model
            c["model"] = {"name": rng.choice(["ising", "heisenberg"]), "params": {}} if p == 2 else {"name": "none", "params": {}}
        if p == 2 and not c["model"]["params"]:
            c["model"]["params"] = {"jz": 0.7, "hx": 1.1} if c["model"]["name"] == "ising" else {"J": 0.8}
    models = [dict(O.rand_model(rng, p, named=False), cached=rng.random() < 0.7) for _ in range(2)]
    register = rng.random() < 0.3
    if register:
        # a model registered with the factory, which configurations then name
        rng.choice(cfgs)["model"] = {"name": "mine", "params": {"J": 0.8, "g": 0.4}}
    ops = [["new", "a", 0, None]]
    alive = {"a": 0}
    for k in range(rng.randint(5, 10 if tier == "quick" else 24)):
        x = rng.random()
        n = rng.choice(sorted(alive))
        if x < 0.22 and len(alive) < 4:
            n = rng.choice([m for m in NETS if m not in alive])
            ci = rng.randrange(len(cfgs))
            same = [m for m in alive if (cfgs[alive[m]]["nx"], cfgs[alive[m]]["ny"]) == (cfgs[ci]["nx"], cfgs[ci]["ny"])]
            ops.append(["new", n, ci, rng.choice(same) if same and rng.random() < 0.5 else None])
            alive[n] = ci
        elif x < 0.36:
            ops.append(["set_model", n, rng.randrange(2), rng.randrange(2), rng.choice([None, None, "m", "M", "ising", "heisenberg"])])
        elif x < 0.46:
            ops.append(["params", n, rng.choice([["J", 0.45], ["g", 0.9], ["hx", 0.3], ["jz", 1.4], ["J", 1.3]])])
        elif x < 0.54:
            ops.append(["chi", n, rng.choice([2, 3, 5, 6])])
        elif x < 0.62:
            ops.append(["edit", rng.randrange(len(cfgs)), rng.choice([["model", "params", "hx", 2.2], ["model", "params", "J", 0.5],
                                                                     ["TN", "dims", "chi", 3], ["ctmrg", "steps", 2],
                                                                     ["evolution", "als_niter", 4], ["evolution", "use_gauge_fix", False],
                                                                     ["ctmrg", "projectors", "full-system"]])])
        elif x < 0.68:
            ops.append(["editp", rng.randrange(2), rng.choice([["J", 0.35], ["g", 0.15]])])
        else:
            ops.append([rng.choice(["renorm", "evolve", "evolve", "measure", "measure", "ievolve", "imeasure"]), n, rng.randrange(2), rng.randrange(2)])
    for n in sorted(alive):
        ops.append(["measure", n, 0, 0])
    return {"cfgs": cfgs, "models": models, "ops": ops, "params": [{"J": 0.9, "g": 0.5}, rng.choice([{"J": 0.6, "tab": [1, [2, 3]]}, {"g": 0.2}, {}])],
            "phys": p, "register": register, "oseed": rng.randrange(1 << 30), "state": rng.randrange(1 << 30)}


def freeze(x):
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, torch.Tensor):
        return ("tensor", str(x.dtype), tuple(x.shape), tuple(x.stride()), x.requires_grad, x.detach().clone().contiguous().numpy().tobytes())
    if hasattr(x, "mat"):
        return ("op", id(x), freeze(x.mat), freeze({k: v for k, v in vars(x).items() if k != "mat" and not callable(v)}))
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)


class Settings:
    """What a network has been told by its user."""

    def __init__(self, cfg):
        self.cfg = copy.deepcopy(cfg)
        self.custom = {}            # lower-case name -> model index
        self.init = False


def build(proc, case, classes, st, snap, bonds):
    """The same network, configured at the start, in another process."""
    src = proc.Ipeps(copy.deepcopy(st.cfg)) if st.init else None
    ip = proc.Ipeps(copy.deepcopy(st.cfg), ipeps=src) if st.init else proc.Ipeps(copy.deepcopy(st.cfg))
    if st.current is not None:
        ip.set_model(classes[st.current[0]], dict(st.cfg["model"]["params"]), name=st.current[1])
    put(ip, snap)
    Bond = proc.mod("ipeps.bond").Bond
    ip.bond_list[:] = [Bond(*b) for b in bonds]
    return ip


def register(proc, classes):
    proc.mod("model.model_factory").model_factory.register("mine", classes[0])


def put(ip, s):
    for site, (A, C, E) in s.items():
        t = ip[site]
        t["A"] = A.clone()
        t["C"] = [x.clone() for x in C]
        t["E"] = [x.clone() for x in E]


class Cache(dict):
    """Operators a model class keeps, with the matrices they were made from."""

    def __init__(self):
        super().__init__()
        self.made = {}


def instance(cls, c, params, dtype):
    return cls(types.SimpleNamespace(name="inst", params=params, dtype=dtype, device=torch.device("cpu"), dim=c["phys"]))


def compute(ip, kind, inst):
    if kind == "renorm":
        ip.renormalize()
    elif kind in ("evolve", "ievolve"):
        if inst is None:
            ip.evolve(0.07, 1)
        else:
            ip.evolve(0.07, 1, model=inst)
    else:
        return work.measure_dict(ip.measure() if inst is None else ip.measure(model=inst))
    return None


def run(case, out):
    proc = Process("p", torch_seed=case["oseed"])
    changed, computed = 0, set()
    with proc:
        proc.load()
        caches = [Cache() for _ in case["models"]]
        user = {"cfgs": [], "params": [dict(p) for p in case["params"]], "caches": caches}
        for c in case["cfgs"]:
            cfg = work.make_cfg(c)
            cfg["model"] = {"name": c["model"]["name"], "params": dict(c["model"]["params"])}
            if user["cfgs"] and rng_shared(case):
                # parts of one dictionary are used in the other one
                cfg["ctmrg"] = user["cfgs"][0]["ctmrg"]
                cfg["model"] = user["cfgs"][0]["model"]
            user["cfgs"].append(cfg)
        classes = [work.make_model_class(proc, m, m["wrap"], cache=caches[j] if m["cached"] else None) for j, m in enumerate(case["models"])]
        nets, sets = {}, {}
        refs = 0
        if case.get("register"):
            register(proc, classes)
        for i, op in enumerate(case["ops"]):
            k, n = op[0], op[1]
            what = f"operation {i} {op}"
            if k not in ("new", "edit", "editp") and n not in nets or k == "new" and op[3] is not None and op[3] not in nets:
                continue
            before = None
            if k == "edit":
                d = user["cfgs"][op[1] % len(user["cfgs"])]
                for key in op[2][:-2]:
                    d = d[key]
                d[op[2][-2]] = op[2][-1]
                changed += 1
                continue
            if k == "editp":
                user["params"][op[1]][op[2][0]] = op[2][1]
                changed += 1
                continue
            before = freeze(user)
            try:
                if k == "new":
                    cfg = user["cfgs"][op[2] % len(user["cfgs"])]
                    src = nets[op[3]] if op[3] else None
                    if src is not None and (src.nx, src.ny) != (cfg["TN"]["nx"], cfg["TN"]["ny"]):
                        continue
                    nets[n] = proc.Ipeps(cfg) if src is None else proc.Ipeps(cfg, ipeps=src)
                    s = sets[n] = Settings(cfg)
                    s.init = src is not None
                    s.current = None
                    if cfg["model"]["name"] == "none":
                        s.current = (0, None)
                        nets[n].set_model(classes[0], user["params"][0])
                        s.cfg["model"]["params"] = dict(user["params"][0])
                    if i == 0 and case["state"] % 2:
                        work.set_state(nets[n], work.random_state(case["cfgs"][0], case["state"]))
                elif k == "set_model":
                    nets[n].set_model(classes[op[2]], user["params"][op[3]], *([] if op[4] is None else [op[4]]))
                    sets[n].current = (op[2], op[4])
                    sets[n].cfg["model"]["params"] = copy.deepcopy(user["params"][op[3]])
                    changed += 1
                elif k == "params":
                    nets[n].set_model_params(**{op[2][0]: op[2][1]})
                    sets[n].cfg["model"]["params"][op[2][0]] = op[2][1]
                    changed += 1
                elif k == "chi":
                    nets[n].set_chi(op[2])
                    sets[n].cfg["TN"]["dims"]["chi"] = op[2]
                    changed += 1
                else:
                    ip, st = nets[n], sets[n]
                    snap, bonds = work.snap(ip), [tuple(b) for b in ip.bond_list]
                    rng = torch.get_rng_state()
                    iparams = copy.deepcopy(user["params"][op[3]]) if k[0] == "i" else None
                    inst = instance(classes[op[2]], case, iparams, ip.dtype) if k[0] == "i" else None
                    exc = v = None
                    try:
                        v = compute(ip, k.lstrip("i"), inst)
                    except Exception as e:
                        exc = e
                        e.__traceback__ = None
                    if inst is not None and iparams != user["params"][op[3]]:
                        raise Violation("modified", f"{what} modified the parameters of the model instance")
                    got, gotb = work.snap(ip), [tuple(b) for b in ip.bond_list]
                    after_rng = torch.get_rng_state()
                    proc.deactivate()
                    try:
                        p2 = Process("ref", torch_seed=1)
                        with p2:
                            p2.load()
                            cl2 = [work.make_model_class(p2, m, m["wrap"]) for m in case["models"]]
                            if case.get("register"):
                                register(p2, cl2)
                            r = build(p2, case, cl2, st, snap, bonds)
                            inst2 = instance(cl2[op[2]], case, copy.deepcopy(user["params"][op[3]]), r.dtype) if inst is not None else None
                            torch.set_rng_state(rng)
                            exc2 = v2 = None
                            try:
                                v2 = compute(r, k.lstrip("i"), inst2)
                            except Exception as e:
                                exc2 = e
                                e.__traceback__ = None
                            want, wantb = work.snap(r), [tuple(b) for b in r.bond_list]
                            want_rng = torch.get_rng_state()
                            del r
                    finally:
                        proc.activate()
                    refs += 1
                    computed.add(n)
                    if type(exc) is not type(exc2) or str(exc) != str(exc2):
                        if exc is not None and exc2 is None or exc2 is not None and exc is None:
                            raise Violation("differs", f"{what}: ended with {exc!r}, in a fresh process with {exc2!r}")
                    p = work.diff(got, want) or (None if gotb == wantb else "the order of bond updates")
                    if p is None and v is not None and v2 is not None:
                        p = work.diff_meas(v, v2)
                    if p is None and not torch.equal(after_rng, want_rng):
                        p = "random numbers drawn"
                    if p:
                        raise Violation("differs", f"{what}: differs from a network configured so from the start: {p}")
                    if exc is not None:
                        out.probe("failed-alike")
                    if k.lstrip("i") == "evolve" and exc is None:
                        st.init = True
                    out.note((i, k, work.digest(got)))
            except Violation:
                raise
            except Exception as e:
                raise Violation("error", f"{what} failed: {type(e).__name__}: {e}")
            after = freeze({"cfgs": user["cfgs"], "params": user["params"], "caches": caches})
            p = changed_user(before, after, caches)
            if p:
                raise Violation("modified", f"{what} modified the user's {p}")
            out.probe(k)
        out.steps += len(case["ops"])
        out.probe("compared", refs)
        nets.clear()
    if case.get("register"):
        out.probe("registered model")
    out.trivial = len(computed) < 2 or not changed
    out.sig = sig_of(case["cfgs"], case["models"], case["ops"])


def rng_shared(case):
    return case["state"] % 3 == 0 and all(c["model"]["name"] == case["cfgs"][0]["model"]["name"] for c in case["cfgs"])


def changed_user(before, after, caches):
    b, a = dict(before[1]), dict(after[1])
    for k in ("cfgs", "params"):
        if b[k] != a[k]:
            return {"cfgs": "configuration dictionary", "params": "parameter dictionary"}[k]
    # operators returned before must still be what they were; new ones may have been added
    for x, y in zip(b["caches"][1], a["caches"][1]):
        now = dict(y[1])
        for key, v in x[1]:
            if now.get(key) != v:
                return f"operator {key}"
    # ... and what was cached during this operation must be what the model defined
    for c in caches:
        for key, o in c.items():
            m = o.mat if hasattr(o, "mat") else o
            want = torch.tensor(c.made[key], dtype=m.dtype)
            if m.shape != want.shape or not torch.equal(m, want):
                return f"operator {key}"
    return None


def shrinks(case):
    for j in range(len(case["ops"])):
        if j:
            c = copy.deepcopy(case)
            del c["ops"][j]
            yield c
