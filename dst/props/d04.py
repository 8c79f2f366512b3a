"""D04: the process group lives exactly as long as it is needed."""
import copy
import gc

import torch.distributed as dist

from .. import faults as F
from .. import ops as O
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of

ID = "D04"
LEVEL = "exploration"
NOTE = ("Seeded search over object histories on the real code; the process group's state is checked after every operation on every rank. Trusts simdist's initialisation and destruction semantics.")
PLAN = {"quick": 320, "thorough": 30000, "case_timeout": 300}
RULE = ("A case is a random history of creating, rebinding, copying (copy, shallow and deep copies), using and "
        "discarding distributed networks (some creations fail half-way; some networks die in reference cycles) on 2-4 "
        "simulated ranks, with or without a process group of the user's own. After every operation the group must be "
        "up if and only if a live network or the user holds it, and every live network must be usable. Non-trivial: at "
        "least one network was discarded and something was used or created afterwards.")
DISTINCT = "hash of (history, number of ranks, order in which ranks ran)"
REAL = ["all of acetn, one private module copy per rank", "CPython reference counting and garbage collection"]
STUB = ["torch.distributed (simdist: initialisation, destruction, use after destruction as in gloo)", "clocks", "console",
        "environment"]
ASSUME = ["ranks discard networks in the same order, as an SPMD script does"]
NAMES = ["a", "b", "c"]


def gen(rng, i, tier):
    ws = rng.choice([2, 2, 3, 4])
    c = O.rand_cfg(rng, nmax=2, nmin=1, chis=(4,), steps=(1,), phys=(2,))
    user = rng.random() < 0.25
    n = rng.randint(2, 9 if tier == "quick" else 16)
    ops = []
    if user:
        ops.append(["user_init"])
    live = set()
    for _ in range(n):
        x = rng.random()
        a, b = rng.choice(NAMES), rng.choice(NAMES)
        if not live or x < 0.2:
            ops.append(["new", a])
            live.add(a)
        elif x < 0.3:
            ops.append(["from", a, rng.choice(sorted(live))])
            live.add(a)
        elif x < 0.5:
            v = rng.choice(sorted(live))
            ops.append([rng.choice(["del", "del", "cycle"]), v])
            live.discard(v)
        elif x < 0.62:
            ops.append([rng.choice(["deepcopy", "shallow", "alias", "copy", "todtype"]), a, rng.choice(sorted(live))])
            live.add(a)
        elif x < 0.75:
            ops.append(["use", rng.choice(sorted(live))])
        elif x < 0.83:
            ops.append(["fail", rng.choice(["toml", "model", "dims", "torch"]), rng.randint(1, 40)])
        elif x < 0.9:
            ops.append(["gc"])
        else:
            ops.append(["saveload", rng.choice(sorted(live))])
    if rng.random() < 0.7:
        ops += [["delall"], ["gc"]]
        if rng.random() < 0.6:
            ops += [["new", "a"], ["use", "a"]]
    return {"cfg": c, "ws": ws, "ops": ops, "user": user, "rng": [rng.randrange(1 << 30) for _ in range(ws)],
            "sticky": rng.choice([0.0, 0.6])}


class Script:
    """The user's script on one rank: named variables holding networks."""

    def __init__(self, rank, c, out, workdir):
        self.r, self.c, self.out, self.workdir = rank, c, out, workdir
        self.v = {}
        self.trash = []
        self.user = False
        self.pending = 0            # networks waiting for the garbage collector
        self.discarded = False
        self.reused = False

    def bind(self, name, x):
        if self.v.get(name) is not None:
            self.discarded = True
        self.v[name] = x

    def holders(self):
        # networks that use the process group (plain copies do not)
        return {id(x) for x in self.v.values() if x is not None and getattr(x, "is_distributed", False)}

    def do(self, op):
        k, a = op[0], op[1:]
        v = self.v
        p = self.r.proc
        if k not in ("del", "cycle", "delall", "gc") and self.discarded:
            self.reused = True
        if k == "user_init":
            dist.init_process_group(backend="gloo")
            self.user = True
        elif k == "new":
            self.bind(a[0], work.new_network(p, self.c))
        elif k == "from":
            self.bind(a[0], work.new_network(p, self.c, src=v[a[1]]))
        elif k == "del":
            v[a[0]] = None
            self.discarded = True
        elif k == "delall":
            for n in v:
                v[n] = None
            self.discarded = True
        elif k == "cycle":
            if v.get(a[0]) is not None:
                # in a reference cycle: dies when this rank's garbage collector runs (each
                # rank is its own process, so the interpreter's collector must not do it)
                self.trash.append([v[a[0]]])
                v[a[0]] = None
                self.pending += 1
                self.discarded = True
        elif k == "gc":
            self.trash.clear()
            self.pending = 0
        elif k == "deepcopy":
            self.bind(a[0], copy.deepcopy(v[a[1]]))
        elif k == "shallow":
            self.bind(a[0], copy.copy(v[a[1]]))
        elif k == "alias":
            self.bind(a[0], v[a[1]])
        elif k == "copy":
            self.bind(a[0], v[a[1]].copy())
        elif k == "todtype":
            import torch
            self.bind(a[0], v[a[1]].to(dtype=torch.float32))
        elif k == "use":
            x = v[a[0]]
            if x is not None and hasattr(x, "renormalize"):
                x.renormalize()
                x.measure()
        elif k == "saveload":
            x = v[a[0]]
            if x is not None:
                path = f"{self.workdir}/r{self.r.rank}.pt"
                x.save(path)
                x.load(path)
        elif k == "fail":
            self.fail(*a)

    def fail(self, how, n):
        from .. import work as W
        cfg = W.make_cfg(self.c)
        try:
            if how == "toml":
                cfg["TN"]["dims"] = {"phys": 2, "bond": object(), "chi": 4}
                self.r.proc.Ipeps(cfg)
            elif how == "model":
                cfg["model"] = {"name": "ising", "nonsense": 1}
                self.r.proc.Ipeps(cfg)
            elif how == "dims":
                cfg["TN"]["dims"] = {"phys": 2, "bond": 2}
                self.r.proc.Ipeps(cfg)
            else:
                with F.Counter(F.at(n, "oom")):
                    self.r.proc.Ipeps(cfg)
        except Exception as e:
            # a half-built network hangs on its traceback
            self.out.count("failed-creation")
            e.__traceback__ = None
            del e


def run(case, out):
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), case["rng"], sticky=case["sticky"])
    scripts = {}
    with O.scratch() as d:
        def body(r):
            s = scripts[r.rank] = Script(r, case["cfg"], out, d)
            try:
                for i, op in enumerate(case["ops"]):
                    what = f"operation {i} {op}"
                    try:
                        s.do(op)
                    except Exception as e:
                        raise Violation("unusable:" + op[0], f"rank {r.rank}: {what} failed: {type(e).__name__}: {e}")
                    need = s.user or bool(s.holders())
                    up = dist.is_initialized()
                    if need and not up:
                        raise Violation("released-early", f"rank {r.rank}: after {what} the process group is gone although "
                                        f"{'the user started it' if s.user else 'a network uses it'}")
                    if not need and not s.pending and up:
                        gc.collect()
                    if not need and not s.pending and dist.is_initialized():
                        raise Violation("not-released", f"rank {r.rank}: after {what} the process group is still up though no network is left")
            finally:
                s.v.clear()
                s.trash.clear()
        try:
            guarded(lambda: cl.run(body), "history")
        finally:
            cl.finish(out)
    for r in cl.ranks:
        if isinstance(r.error, Violation):
            raise r.error
    for r in cl.ranks:
        if r.error is not None:
            raise r.error
    out.trivial = not scripts[0].reused
    out.probe("destroyed", cl.dist.events.get("destroy", 0))
    out.sig = sig_of(case["ops"], case["ws"], cl.kernel.sig)


def shrinks(case):
    if case["ws"] > 2:
        yield dict(copy.deepcopy(case), ws=2, rng=case["rng"][:2], choices=[])
