"""S01: a checkpoint restores exactly the saved state, and saving changes nothing."""
import copy
import os
import pathlib

import torch

from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "S01"
LEVEL = "exploration"
NOTE = ("Seeded search over histories with simulated process restarts on the real code and a real scratch directory; "
        "round trips and continuations are compared bit by bit.")
PLAN = {"quick": 150, "thorough": 9000, "case_timeout": 300}
RULE = ("A case is a random configuration and history: operations, save, then the live network continues while the "
        "checkpoint is loaded after a restart (a new process with other random state, in which other networks may have "
        "run), into the live network itself, into a network of the other precision, or by another number of ranks. The "
        "restored tensors must equal the saved ones bit by bit (or their conversion), both continuations must agree bit "
        "by bit from the same seed, saving must change neither tensors, settings nor random state, and the file must not "
        "change afterwards. Non-trivial: something was done both before saving and after loading.")
DISTINCT = "hash of (configuration, history, restart kind)"
REAL = ["all of acetn, one private module copy per process", "torch.save / torch.load", "the file system (scratch directory)"]
STUB = ["process restart (new module copies, environment, random state)", "torch.distributed (simdist) for distributed cases",
        "clocks", "console"]
ASSUME = ["continuations are compared from an even number of evolution steps on (the bond order alternates between steps and "
          "is not part of a checkpoint)"]


def rand_ops(rng, c, n, first_evolve=False, even=False):
    ops = []
    for k in range(n):
        x = rng.random()
        if x < 0.3:
            ops.append(["renorm"])
        elif x < 0.6:
            ops.append(["evolve", rng.choice([0.01, 0.1]), 2 if even else rng.choice([1, 2, 3])])
        elif x < 0.7:
            ops.append(["measure"])
        elif x < 0.8:
            ops.append(["chi", rng.choice([3, 5, 7])])
        elif x < 0.9:
            ops.append(["move", rng.choice(O.MOVES), rng.randrange(4)])
        else:
            ops.append(O.rand_param_change(rng, c))
    if first_evolve:
        ops.insert(0, ["evolve", 0.05, 2])
    return ops


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2 if tier == "quick" else 3, nmin=1 if rng.random() < 0.2 else 2, chis=(4, 5, 6), steps=(1, 2), dtypes=("float64", "float64", "float32"),
                   Ds=(2, 2, 2, 3) if tier != "quick" else (2,))
    c["als_niter"] = 5
    mode = rng.choice(["restart", "restart", "restart", "dist"])
    state = rng.random() < 0.5
    case = {"mode": mode, "cfg": c, "state": rng.randrange(1 << 30) if state else None,
            "pre": rand_ops(rng, c, rng.randint(0, 3), not state, even=True), "post": rand_ops(rng, c, rng.randint(1, 3)),
            "seeds": [rng.randrange(1 << 30) for _ in range(3)], "path": rng.choice(["str", "str", "Path", "overwrite", "symlink", "bare"]),
            "noise": rng.random() < 0.4, "self": rng.random() < 0.5, "dtype": rng.random() < 0.5,
            "ws": rng.choice([2, 3]), "ws2": rng.choice([1, 2, 3]), "sticky": rng.choice([0.0, 0.7])}
    if not state and rng.random() < 0.25:
        # saved before the first evolution
        case["pre"], case["post"] = [], [["renorm"], ["measure"]]
    if mode == "dist":
        case["pre"] = [o for o in case["pre"] if o[0] != "move"]
        case["post"] = [o for o in case["post"] if o[0] != "move"] or [["renorm"]]
    return case


def settings(ip):
    return {"dims": dict(ip.dims), "bonds": [tuple(b) for b in ip.bond_list], "sites": list(ip.site_list), "nx": ip.nx, "ny": ip.ny,
            "dtype": str(ip.dtype), "init": bool(ip.site_states_initialized), "params": dict(ip.config.model.params),
            "rng": torch.get_rng_state().sum().item()}


def save(ip, d, how):
    p = os.path.join(d, "state.pt")
    if how == "overwrite":
        with open(p, "wb") as f:
            f.write(b"old" * 100000)
    if how == "symlink":
        os.mkdir(os.path.join(d, "real"))
        with open(os.path.join(d, "real", "data.pt"), "wb") as f:
            f.write(b"old")
        os.symlink(os.path.join("real", "data.pt"), p)
    if how == "bare":
        p = os.path.join(d, "checkpoint without extension")
    ip.save(pathlib.Path(p) if how == "Path" else p)
    return p


def content(p):
    with open(p, "rb") as f:
        return f.read()


def steps(d, ops):
    out = []
    for op in ops:
        v = d.do(op)
        out.append((op, work.snap(d.ip), v if op[0] == "measure" else None))
    return out


def same(a, b, what, exact=True):
    for i, ((op, s, v), (_, s2, v2)) in enumerate(zip(a, b)):
        p = work.diff(s, s2)
        if p:
            raise Violation("continue:" + op[0], f"{what}: after operation {i} {op}: {p}")
        if v is not None:
            p = work.diff_meas(v, v2)
            if p:
                raise Violation("continue:measure", f"{what}: {p}")


def noise(proc, c, seed, out):
    """Some other network runs in the process first."""
    c2 = dict(c, nx=3, ny=2, D=3, chi=5, phys=c.get("phys", 2))
    ip = work.new_network(proc, c2)
    work.set_state(ip, work.random_state(c2, seed))
    ip.renormalize()
    out.probe("noise")
    return ip


def convert(s, dtype):
    return {k: (A.to(dtype), [x.to(dtype) for x in C], [x.to(dtype) for x in E]) for k, (A, C, E) in s.items()}


def fresh(c, d, path, seed, out, noisy, ops, chi):
    """Restart: a new process loads the checkpoint and continues."""
    p = Process("restarted", torch_seed=seed)
    with p:
        p.load()
        keep = noise(p, c, seed, out) if noisy else None
        dr = O.Driver(p, c, workdir=d)
        dr.create()
        dr.ip.load(path)
        s = work.snap(dr.ip)
        dr.ip.set_chi(chi)
        for k, v in (ops[0][1].items() if ops and ops[0][0] == "restore" else ()):
            dr.ip.set_model_params(**{k: v})
        torch.manual_seed(99)
        r = steps(dr, [o for o in ops if o[0] != "restore"])
        dr.ip = None
        del keep
    return s, r


def run(case, out):
    if case["mode"] == "dist":
        return run_dist(case, out)
    c = case["cfg"]
    A = work.random_state(c, case["state"]) if case["state"] is not None else None
    with O.scratch() as d:
        p1 = Process("first", torch_seed=case["seeds"][0])
        with p1:
            p1.load()
            dr = O.Driver(p1, c, A, d)
            dr.create()
            for op in case["pre"]:
                dr.do(op)
            s0, set0 = work.snap(dr.ip), settings(dr.ip)
            path = save(dr.ip, d, case["path"])
            p = work.diff(work.snap(dr.ip), s0)
            if p:
                raise Violation("save-changes", f"saving changed the live network: {p}")
            if settings(dr.ip) != set0:
                raise Violation("save-changes", f"saving changed settings: {set0} -> {settings(dr.ip)}")
            left = sorted(os.listdir(d))
            b0 = content(path)
            torch.manual_seed(99)
            live = steps(dr, case["post"])
            if content(path) != b0:
                raise Violation("file-changes", "the checkpoint changed while the live network went on")
        s, r = fresh(c, d, path, case["seeds"][1], out, case["noise"],
                     [["restore", set0["params"]]] + case["post"], set0["dims"]["chi"])
        p = work.diff(s, s0)
        if p:
            raise Violation("round-trip", f"loaded after a restart: {p}")
        same(live, r, "restarted from the checkpoint")
        out.count("restart")
        with p1:
            if case["self"]:
                dr.ip.load(path)
                p = work.diff(work.snap(dr.ip), s0)
                if p:
                    raise Violation("round-trip", f"loaded back into the live network: {p}")
                out.probe("self-load")
            if case["dtype"]:
                other = "float32" if c["dtype"] == "float64" else "float64"
                ip = work.new_network(p1, dict(c, dtype=other))
                ip.load(path)
                p = work.diff(work.snap(ip), convert(s0, getattr(torch, other)))
                if p:
                    raise Violation("round-trip", f"loaded as {other}: {p}")
                ip.renormalize()
                del ip
                out.probe("dtype-load")
            if content(path) != b0:
                raise Violation("file-changes", "the checkpoint changed by being loaded")
            dr.ip = None
    out.steps += len(case["pre"]) + 2 * len(case["post"]) + 2
    out.note((work.digest(s0), [work.digest(x[1]) for x in live], left and len(left)))
    out.trivial = not case["pre"] and case["state"] is None
    out.sig = sig_of(c, case["pre"], case["post"], case["path"], case["noise"], case["self"], case["dtype"])


def run_dist(case, out):
    c, ws, ws2 = case["cfg"], case["ws"], case["ws2"]
    A = work.random_state(c, case["state"]) if case["state"] is not None else None
    with O.scratch() as d:
        path = os.path.join(d, "state.pt")
        kept = {}

        def first(r):
            r.driver = dr = O.Driver(r.proc, c, A, d, r.rank)
            dr.create()
            for op in case["pre"]:
                dr.do(op)
            s0, set0 = work.snap(dr.ip), settings(dr.ip)
            if r.rank == 0 or case["self"]:
                dr.ip.save(path)
            p = work.diff(work.snap(dr.ip), s0)
            if p or settings(dr.ip) != set0:
                raise Violation("save-changes", f"rank {r.rank}: saving changed the live network: {p}")
            torch.manual_seed(99)
            kept[r.rank] = (s0, set0, steps(dr, case["post"]))
        cl = Cluster(ws, case["seed"], case.get("choices"), [case["seeds"][0] + r for r in range(ws)], sticky=case["sticky"])
        try:
            guarded(lambda: cl.run(first), "first run")
        finally:
            cl.finish(out)
        check(cl)
        s0, set0, live = kept[0]
        ops = [["restore", set0["params"]]] + case["post"]
        if ws2 == 1:
            s, _ = fresh(c, d, path, case["seeds"][1], out, case["noise"], ops, set0["dims"]["chi"])
            p = work.diff(s, s0)
            if p:
                raise Violation("round-trip", f"saved by {ws} ranks, loaded by one process: {p}")
        else:
            got = {}

            def second(r):
                r.driver = dr = O.Driver(r.proc, c, None, d, r.rank)
                dr.create()
                dr.ip.load(path)
                s = work.snap(dr.ip)
                dr.ip.set_chi(set0["dims"]["chi"])
                dr.ip.set_model_params(**set0["params"])
                torch.manual_seed(99)
                got[r.rank] = (s, steps(dr, case["post"]))
            cl2 = Cluster(ws2, case["seed"] + 1, None, [case["seeds"][1] + r for r in range(ws2)], sticky=case["sticky"])
            try:
                guarded(lambda: cl2.run(second), "restarted run")
            finally:
                ch = out.choices
                cl2.finish(out)
                out.choices = ch
            check(cl2)
            for r in range(ws2):
                p = work.diff(got[r][0], s0)
                if p:
                    raise Violation("round-trip", f"saved by {ws} ranks, loaded by rank {r} of {ws2}: {p}")
                if ws2 == ws:
                    same(kept[r][2], got[r][1], f"rank {r} restarted from the checkpoint")
                    out.probe("dist-continued")
        out.count("restart")
    out.note(work.digest(s0))
    out.sig = sig_of(c, case["pre"], case["post"], ws, ws2, cl.kernel.sig)


def check(cl):
    for r in cl.ranks:
        if isinstance(r.error, Violation):
            raise r.error
    for r in cl.ranks:
        if r.error is not None:
            raise Violation("rank-error", f"rank {r.rank}: {type(r.error).__name__}: {r.error}")


def shrinks(case):
    for key in ("pre", "post"):
        for j in range(len(case[key])):
            if key == "pre" and case["state"] is None and j == 0:
                continue
            c = copy.deepcopy(case)
            del c[key][j]
            yield c
    for key in ("noise", "self", "dtype"):
        if case[key]:
            yield dict(copy.deepcopy(case), **{key: False})
    if case["path"] != "str":
        yield dict(copy.deepcopy(case), path="str")
