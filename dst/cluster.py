"""A distributed run: one simulated process per rank on the kernel and SimDist."""
from . import ops as O
from . import work
from .core import Violation
from .kernel import Chooser, Deadlock, Kernel, SimLock, StepCap
from .procs import Clock, Process
from .simdist import Mismatch, SimDist


class Rank:
    def __init__(self, rank):
        self.rank = rank
        self.proc = None
        self.driver = None
        self.records = []           # per operation: {"op", "snap", "value", "exc"}
        self.error = None


class Cluster:
    def __init__(self, ws, seed=0, choices=None, torch_seeds=None, cpu_count=64, sticky=0.0, env=None,
                 step_cap=400_000, tty=False):
        self.ws = ws
        self.kernel = Kernel(Chooser(seed, choices), step_cap=step_cap, sticky=sticky)
        self.kernel.on_switch = self._switch
        self.dist = SimDist(self.kernel, ws, cpu_count)
        self.ranks = [Rank(r) for r in range(ws)]
        for r in self.ranks:
            e = {"RANK": str(r.rank), "WORLD_SIZE": str(ws), "LOCAL_RANK": str(r.rank), "MASTER_ADDR": "127.0.0.1",
                 "MASTER_PORT": "29500"}
            e.update(env or {})
            r.proc = Process(f"rank{r.rank}", env=e, clock=Clock(self.kernel), tty=tty,
                             torch_seed=(torch_seeds[r.rank] if torch_seeds else 0))
            r.proc.pid = 4000 + r.rank

    @staticmethod
    def _switch(old, new):
        if old is not None:
            old.deactivate()
        if new is not None:
            new.activate()

    def run(self, body):
        """body(rank) runs in every rank's process; returns when all ended or were killed."""
        def main(r):
            def f():
                try:
                    r.proc.load()
                    body(r)
                except Exception as e:
                    r.error = e
                except KeyboardInterrupt as e:
                    r.error = e
                finally:
                    if not r.proc.dead and not self.kernel.finished:
                        if r.driver is not None:
                            r.driver.ip = None
                            r.driver.others.clear()
                        self.dist.leave(r.proc)
            return f
        SimLock.kernel = self.kernel
        with self.dist:
            try:
                for r in self.ranks:
                    self.kernel.spawn(main(r), r.proc.name, r.proc)
                self.kernel.run()
            finally:
                self.kernel.close()
                SimLock.kernel = None

    def run_ops(self, c, ops, A=None, workdir=None, snaps=True, keep_going=False):
        """Every rank applies the same operations, recording what it sees after each."""
        def body(r):
            r.driver = d = O.Driver(r.proc, c, A, workdir, r.rank)
            for op in [["create"]] + ops:
                rec = {"op": op, "snap": None, "value": None, "exc": None}
                r.records.append(rec)
                try:
                    rec["value"] = d.do(op)
                    if snaps and d.ip is not None:
                        rec["snap"] = work.snap(d.ip)
                    rec["done"] = True
                except (Exception, KeyboardInterrupt) as e:
                    rec["exc"] = e
                    if not keep_going:
                        raise
        self.run(body)

    def finish(self, out):
        out.choices = list(self.kernel.chooser.trace)
        out.sim_s += self.kernel.now - self.kernel.t0
        out.steps += self.kernel.steps
        for k, v in self.kernel.fired.items():
            out.count(k, v)
        for k, v in self.dist.events.items():
            out.probe("collective." + k, v)
        out.note((self.kernel.sig, self.kernel.steps, self.kernel.chooser.trace[-50:]))


def guarded(fn, what):
    """Turn a stuck simulation into a violation."""
    try:
        return fn()
    except Deadlock as e:
        raise Violation("deadlock", f"{what}: every remaining rank waits for ever: {e}")
    except Mismatch as e:
        raise Violation("mismatch", f"{what}: {e}")
    except StepCap as e:
        raise Violation("endless", f"{what}: not finished after {e} steps")
