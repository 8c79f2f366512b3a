"""E04: what a simulation holds does not grow with its length."""
import collections
import copy
import gc
import os
import threading

import torch

from .. import faults as F
from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of
from ..procs import Process

ID = "E04"
LEVEL = "exploration"
NOTE = ("Seeded search over histories repeated many times, with failing operations and discarded networks, on one process or several "
        "simulated ranks; everything alive is counted after each repetition.")
PLAN = {"quick": 200, "thorough": 6000, "case_timeout": 300}
RULE = ("A case is a random history - evolutions, renormalizations, measurements, changes of chi, of the model and of its parameters, "
        "checkpoints saved and loaded, networks copied, converted, created from one another and dropped, operations failing at a "
        "random tensor operation for lack of memory, by an interrupt or a factorisation that does not converge - repeated 8 times on "
        "one network, in one process or on 2-4 simulated ranks under a random schedule. After every repetition everything alive in "
        "the process is counted: the bytes of all tensors apart from those of the network itself, tensors, other objects, items in "
        "lists, dictionaries and sets, networks, open files, threads. None may have grown in each of the last four repetitions, and no network dropped by the user may be "
        "alive. Afterwards the network is dropped, too, and none of its tensors may be left. Non-trivial: at least two different "
        "operations in the history.")
DISTINCT = "hash of (configuration, history, ranks)"
REAL = ["all of acetn", "Python's memory management"]
STUB = ["torch.distributed (simulated) in distributed cases", "clocks", "console", "environment variables"]
ASSUME = ["memory held by torch itself outside of tensors (allocator caches, thread pools) is bounded",
          "networks may be parts of reference cycles: they need to be gone after a garbage collection only"]
REPS = 8


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2 if rng.random() < 0.8 else 3, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 5), steps=(1, 1, 2), dtypes=("float64", "float32"))
    c["als_niter"] = rng.choice([3, 6])
    ws = rng.choice([0, 0, 0, 2, 3, 4])
    if ws:
        c["nx"] = c["ny"] = 2
    ops = []
    for k in range(rng.randint(2, 5)):
        x = rng.random()
        if x < 0.3:
            o = ["evolve", rng.choice([0.1, 0.05]), rng.choice([1, 1, 2]) if c["update"] == "full" or ws else rng.choice([1, 3, 11])]
        elif x < 0.4:
            o = ["renorm"]
        elif x < 0.55:
            o = ["measure"]
        elif x < 0.63:
            ops.append(["chi", rng.choice([2, 3, 6])])
            o = ["renorm"]
        elif x < 0.70:
            o = O.rand_param_change(rng, c)
        elif x < 0.76:
            o = ["model", dict(O.rand_model(rng, c["phys"], named=False))]
        elif x < 0.82:
            o = ["save0" if ws else "save", "x.pt"]
        elif x < 0.87 and not ws:
            ops.append(["save", "x.pt"])
            o = ["load", "x.pt"]
        elif x < 0.92:
            o = [rng.choice(["copy", "fork"]), "o"]
        elif x < 0.96:
            o = ["to", "o", rng.choice(["float32", "float64"])]
        else:
            o = ["new"]
        if not ws and rng.random() < 0.45 and o[0] in ("evolve", "renorm", "measure", "save", "load", "fork", "copy"):
            o = ["fault", round(rng.random(), 4), rng.choice(["oom", "memory", "linalg", "interrupt"]), o]
        ops.append(o)
    return {"cfg": c, "ops": ops, "ws": ws, "oseed": rng.randrange(1 << 30), "init": rng.random() < 0.7,
            "bad": rng.random() < 0.15}


def state_storages(ip):
    s = {}
    for site in ip.site_list:
        t = ip[site]
        for x in [t["A"], *t["C"], *t["E"]]:
            s[x.untyped_storage()._cdata] = 1
    return s


def census(nets):
    """Everything alive apart from the state of the given networks (one per rank)."""
    gc.collect()
    own = {}
    for ip in nets:
        own.update(state_storages(ip))
    seen, nbytes, tensors, networks, objects, items = set(), 0, 0, 0, 0, 0
    classes = {c for ip in nets for c in type(ip).__mro__ if c is not object}
    for o in gc.get_objects():
        objects += 1
        t = type(o)
        if t in (list, dict, set, collections.deque) or issubclass(t, (list, dict, set)) and t is not torch.Size:
            items += len(o)
        elif t in classes:
            networks += 1
        elif issubclass(t, torch.Tensor):
            st = o.untyped_storage()
            if st._cdata not in own:
                tensors += 1
                if st._cdata not in seen:
                    seen.add(st._cdata)
                    nbytes += st.nbytes()
    return {"bytes of tensors": nbytes, "tensors": tensors, "networks": networks, "objects": objects,
            "items in containers": items, "open files": len(os.listdir("/proc/self/fd")), "threads": threading.active_count()}


def block(d, case, out):
    for op in case["ops"]:
        if op[0] == "new":
            d.others["n"] = work.new_network(d.proc, d.c)
            continue
        if op[0] != "fault":
            d.do(op)
        elif id(op) not in d.calls:
            # the first time only the number of tensor operations is counted
            with F.Counter() as n:
                d.do(op[3])
            d.calls[id(op)] = n.n
        elif d.do(["fault", 1 + int(op[1] * d.calls[id(op)]), op[2], op[3]]) != "completed":
            out.count("torch-op " + op[2])
    if case["bad"]:
        # ... and failures that come from the user
        for f in (lambda: d.ip.load(d.path("missing.pt")), lambda: d.ip.evolve(0.1, 1, model=object()),
                  lambda: d.proc.Ipeps({"TN": {"nx": 2}, "nonsense": 1})):
            try:
                f()
                out.probe("accepted nonsense")
            except Exception as e:
                e.__traceback__ = None
    d.others.clear()
    d.ip.set_chi(case["cfg"]["chi"])


def start(d, case):
    d.calls = {}
    d.create()
    if case["init"]:
        d.do(["evolve", 0.1, 1])


def grows(rows, ranks):
    for k in rows[0]:
        if k == "items in containers" and ranks:
            continue        # the simulator records the schedule and the collectives
        v = [r[k] for r in rows]
        tail = v[-5:]
        if all(b > a for a, b in zip(tail, tail[1:])):
            return k, v
    return None


def judge(rows, nets, what):
    if any(r["networks"] > nets for r in rows):
        raise Violation("alive", f"{what}: networks dropped by the user are still alive: {[r['networks'] for r in rows]} "
                                 f"networks after the repetitions, {nets} in use")
    g = grows(rows, nets > 1)
    if g:
        raise Violation("grows", f"{what}: the {g[0]} held grow with every repetition of the same history: {g[1]}")


def run(case, out):
    c, ws = case["cfg"], case["ws"]
    rows = []
    with O.scratch() as wd:
        if not ws:
            p = Process("p", torch_seed=case["oseed"])
            p.stdout.cap = p.stderr.cap = 0        # what is printed is not kept
            with p:
                p.load()
                d = O.Driver(p, c, None, wd)
                start(d, case)
                rows = [None]*REPS
                for r in range(REPS):
                    try:
                        block(d, case, out)
                    except Violation:
                        raise
                    except Exception as e:
                        raise Violation("error", f"repetition {r}: {type(e).__name__}: {str(e)[:300]}")
                    rows[r] = census([d.ip])
                cls = {type(d.ip), type(d.ip[d.ip.site_list[0]])}
                d.ip = None
                end(cls, out)
        else:
            rows = distributed(case, wd, out)
    judge(rows, max(1, ws), f"{ws} ranks" if ws else "one process")
    out.steps += REPS * len(case["ops"])
    out.note([[r[k] for k in ("bytes of tensors", "tensors", "networks")] for r in rows])
    for k in ("bytes of tensors", "objects", "items in containers"):
        if rows[-1][k] > rows[2][k]:
            out.probe(k + " above the third repetition")
    out.trivial = len({(o[3] if o[0] == "fault" else o)[0] for o in case["ops"]}) < 2
    out.sig = sig_of(c, case["ops"], ws, case["bad"])


def end(cls, out):
    gc.collect()
    left = [o for o in gc.get_objects() if type(o) in cls]
    if left:
        raise Violation("alive", f"{len(left)} networks or site tensors are alive after the last network was dropped")


def distributed(case, wd, out):
    c, ws = case["cfg"], case["ws"]
    cl = Cluster(ws, case["seed"], case.get("choices"), [case["oseed"] + r for r in range(ws)])
    drivers, at, rows = [None] * ws, [-1] * ws, []

    def body(r):
        d = drivers[r.rank] = O.Driver(r.proc, c, None, wd, r.rank)
        start(d, case)
        for n in range(REPS):
            block(d, case, out)
            at[r.rank] = n
            if r.rank == 0:
                # the other ranks have finished the repetition and wait
                cl.kernel.block(lambda: all(a >= n for a in at), "census")
                rows.append(census([x.ip for x in drivers]))
            else:
                cl.kernel.block(lambda: len(rows) > n, "census")
        d.ip = None
    try:
        guarded(lambda: cl.run(body), "run")
    except Violation:
        if all(r.error is None for r in cl.ranks):
            raise
    finally:
        cl.finish(out)
    for r in sorted((r for r in cl.ranks if r.error is not None), key=lambda r: "Connection closed" in str(r.error)):
        raise Violation("error", f"rank {r.rank}: {type(r.error).__name__}: {str(r.error)[:300]}")
    return rows


def shrinks(case):
    for j in range(len(case["ops"])):
        x = copy.deepcopy(case)
        del x["ops"][j]
        yield x
        if case["ops"][j][0] == "fault":
            x = copy.deepcopy(case)
            x["ops"][j] = case["ops"][j][3]
            yield x
    if case["ws"]:
        yield dict(copy.deepcopy(case), ws=0)
    if case["bad"]:
        yield dict(copy.deepcopy(case), bad=False)
