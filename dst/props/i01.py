"""I01: simulations in one process do not influence each other."""
import copy
import sys

import torch

from .. import ops as O
from .. import solo as S
from .. import work
from ..core import Violation, sig_of
from ..kernel import Chooser, Deadlock, Kernel, SimLock, StepCap
from ..procs import Clock, Process

ID = "I01"
LEVEL = "exploration"
NOTE = ("Seeded search over interleavings, at operation or source-line granularity, of real simulations in one process; each "
        "is compared bit by bit with the same simulation alone in a fresh process.")
PLAN = {"quick": 190, "thorough": 6000, "case_timeout": 400}
RULE = ("A case is 2-3 random simulations (different unit cells, dimensions, precisions, models of the same name, couplings, "
        "time steps, settings; some hit by a failing tensor operation) run in one process: alternating operation by "
        "operation, or as concurrent threads switched at random source lines of acetn, each with its own random stream. "
        "Tensors after every operation and all measurements must equal, bit for bit, those of the simulation alone, and "
        "idle networks in the same process must not change. Non-trivial: the simulations really alternated.")
DISTINCT = "hash of (simulations, order in which they ran)"
REAL = ["all of acetn, one module copy shared by the simulations", "torch kernels"]
STUB = ["thread scheduling (one runs at a time, switched at source lines)", "random generator (one stream per simulation)",
        "clocks", "console"]
ASSUME = ["threads switch between source lines of acetn, not inside one",
          "each concurrent simulation draws from its own random stream, so that results are comparable"]


def rand_task(rng, tier):
    c = O.rand_cfg(rng, nmax=2, nmin=1, Ds=(2, 2, 3) if tier != "quick" else (2,), chis=(3, 4, 5), steps=(1, 2),
                   dtypes=("float64", "float64", "float32"))
    c["als_niter"] = rng.choice([3, 10])
    evolve = c["nx"] > 1 and c["ny"] > 1
    ops = []
    for k in range(rng.randint(2, 4)):
        x = rng.random()
        if x < 0.4 and evolve:
            op = ["evolve", rng.choice([0.01, 0.05, 0.2]), rng.choice([1, 1, 2])]
        elif x < 0.6:
            op = ["renorm"]
        elif x < 0.68:
            op = ["chi", rng.choice([2, 4, 6])]
        elif x < 0.76:
            op = O.rand_param_change(rng, c)
        elif x < 0.84 and "kind" in c["model"]:
            op = ["model", dict(O.rand_model(rng, c["phys"], named=False), phys=c["phys"])]
        elif x < 0.9:
            op = ["fork", f"o{k}"]
        else:
            op = ["measure"]
        if op[0] in ("evolve", "renorm", "measure") and rng.random() < 0.1:
            op = ["fault", rng.randint(1, 400), rng.choice(["oom", "alloc", "interrupt"]), op]
        ops.append(op)
    ops.append(["measure"])
    return {"cfg": c, "ops": ops, "seed": rng.randrange(1 << 30), "state": rng.randrange(1 << 30) if rng.random() < 0.5 else None}


def gen(rng, i, tier):
    mode = rng.choice(["ops", "lines", "lines"])
    n = rng.choice([2, 2, 3])
    tasks = [rand_task(rng, tier) for _ in range(n)]
    for t in tasks[1:]:
        # half of the simulations share most of their configuration with the first, so that
        # anything keyed by it would be shared too
        if rng.random() < 0.5:
            c = copy.deepcopy(tasks[0]["cfg"])
            for _ in range(rng.randint(0, 3)):
                k = rng.choice(["D", "chi", "dtype", "projectors", "svd_type", "update", "gauge", "als_method", "model"])
                c[k] = t["cfg"][k]
            if rng.random() < 0.3:
                c["dtype"] = "float32" if tasks[0]["cfg"]["dtype"] == "float64" else "float64"
            c["phys"] = 2 if "name" in c["model"] else c["model"].get("phys", 2)
            ops = [o for o in t["ops"] if o[0] not in ("params", "model")]
            if c["nx"] > 1 and c["ny"] > 1 and rng.random() < 0.7:
                ops.insert(0, ["evolve", rng.choice([0.01, 0.1]), 1])
            elif c["nx"] == 1 or c["ny"] == 1:
                ops = [o for o in ops if o[0] != "evolve" and not (o[0] == "fault" and o[3][0] == "evolve")]
            t["cfg"], t["ops"] = c, ops
    return {"mode": mode, "tasks": tasks, "sticky": rng.choice([0.5, 0.9, 0.98]), "every": rng.choice([1, 1, 3])}


def script(d, ops, between=None):
    out = []
    for op in [["create"]] + ops:
        if between:
            between()
        v = d.do(op)
        out.append((op, work.snap(d.ip), v if op[0] in ("measure", "fault") else None))
    return out


class Stream:
    """The random stream of one simulation."""

    def __init__(self, seed):
        g = torch.Generator()
        g.manual_seed(seed)
        self.state = g.get_state()

    def enter(self):
        torch.set_rng_state(self.state)

    def leave(self):
        self.state = torch.get_rng_state()


def run(case, out):
    tasks = case["tasks"]
    alone = []
    for t in tasks:
        A = work.random_state(t["cfg"], t["state"]) if t["state"] is not None else None
        s = S.Solo(t["cfg"], [], t["seed"], A, create=False)
        with s.proc:
            s.proc.load()
            torch.set_rng_state(Stream(t["seed"]).state)
            d = O.Driver(s.proc, t["cfg"], A)
            alone.append(script(d, t["ops"]))
            d.ip = None
            d.others.clear()
    kernel = Kernel(Chooser(case["seed"], case.get("choices")), step_cap=3_000_000, sticky=case["sticky"])
    streams = [Stream(t["seed"]) for t in tasks]

    def switch(a, b):
        if a is not None:
            a.leave()
        if b is not None:
            b.enter()
    kernel.on_switch = switch
    proc = Process("shared", torch_seed=7, clock=Clock(kernel))
    together = [None] * len(tasks)
    count = [0]
    every = case["every"]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] % every == 0:
                kernel.seam("line")
        return local

    def tracer(frame, event, arg):
        return local if "/acetn/" in frame.f_code.co_filename else None

    def body(j, t):
        def f():
            A = work.random_state(t["cfg"], t["state"]) if t["state"] is not None else None
            d = O.Driver(proc, t["cfg"], A)
            lines = case["mode"] == "lines"
            if lines:
                sys.settrace(tracer)
            try:
                together[j] = script(d, t["ops"], None if lines else (lambda: kernel.seam("op")))
            finally:
                sys.settrace(None)
                d.ip = None
                d.others.clear()
        return f
    with proc:
        proc.load()
        c0 = tasks[0]["cfg"]
        idle = [work.new_network(proc, c0)]
        idle.append(work.new_network(proc, c0, src=idle[0]))
        idle.append(idle[0].copy())
        still = [work.snap(x) for x in idle]
        SimLock.kernel = kernel
        try:
            for j, t in enumerate(tasks):
                kernel.spawn(body(j, t), f"task{j}", streams[j])
            kernel.run()
        except Deadlock as e:
            raise Violation("deadlock", f"simulations wait for each other: {e}")
        except StepCap as e:
            raise Violation("endless", f"not finished after {e} steps")
        finally:
            kernel.close()
            SimLock.kernel = None
            out.choices = list(kernel.chooser.trace)
            out.sim_s += kernel.now - kernel.t0
            out.steps += kernel.steps
        how = "alternating operations" if case["mode"] == "ops" else "concurrent threads"
        for k in kernel.tasks:
            if k.error is not None:
                e = k.error
                raise Violation("error", f"{how}: {k.name} failed: {type(e).__name__}: {str(e)[:300]}")
        for j in range(len(tasks)):
            for i, ((op, s, v), (_, s2, v2)) in enumerate(zip(alone[j], together[j])):
                p = work.diff(s2, s)
                if p:
                    raise Violation("influence", f"{how}: simulation {j} after operation {i} {op} differs from running alone: {p}")
                if isinstance(v, dict):
                    p = work.diff_meas(v, v2)
                    if p:
                        raise Violation("influence", f"{how}: simulation {j} measures differently than alone: {p}")
                elif v != v2:
                    raise Violation("influence", f"{how}: simulation {j}: {op} ended with {v2}, alone with {v}")
                if op[0] == "fault" and v != "completed":
                    out.count(op[2])
        for x, s in zip(idle, still):
            p = work.diff(work.snap(x), s)
            if p:
                raise Violation("idle-changed", f"{how}: an idle network changed: {p}")
        idle.clear()
    out.probe("switches", kernel.switches)
    out.probe(case["mode"])
    out.note((kernel.sig, [work.digest(s[-1][1]) for s in together]))
    out.trivial = kernel.switches < 2
    out.sig = sig_of(tasks, kernel.sig)


def shrinks(case):
    if len(case["tasks"]) > 2:
        for j in range(len(case["tasks"])):
            c = copy.deepcopy(case)
            del c["tasks"][j]
            c["choices"] = []
            yield c
    if case["mode"] == "lines":
        yield dict(copy.deepcopy(case), mode="ops", choices=[])
