"""Deterministic kernel: cooperative tasks on a virtual clock.

Every task is a real thread, but exactly one thread runs at any time: a task
runs until it reaches a seam (a collective, a file operation, a traced source
line, ...), parks itself there, and the kernel picks the next task to run.  All
picks go through a Chooser, so that (case, choices) determines an execution.
"""
import random
import threading


class SimError(Exception):
    """The harness itself is wrong (never a verdict about the code)."""


class SimExit(BaseException):
    """Unwinds the thread of a task that was killed or belongs to a finished run."""


class Chooser:
    """All nondeterminism of a run: integers drawn from a seeded generator, or
    replayed from a list (0 once the list is used up)."""

    def __init__(self, seed=0, replay=None):
        self.rng = random.Random(seed)
        self.replay = None if replay is None else list(replay)
        self.trace = []

    def choose(self, n, weights=None):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.replay is not None:
            c = self.replay[i] % n if i < len(self.replay) else 0
        elif weights is not None:
            c = self.rng.choices(range(n), weights)[0]
        else:
            c = self.rng.randrange(n)
        self.trace.append(c)
        return c


class Task:
    def __init__(self, kernel, tid, name, fn, proc):
        self.kernel, self.id, self.name, self.fn, self.proc = kernel, tid, name, fn, proc
        self.go = threading.Semaphore(0)
        self.done = False
        self.killed = False      # unwinding: every seam raises SimExit
        self.frozen = False      # dead process: never scheduled again
        self.result = None
        self.error = None
        self.pred = None         # blocked until pred() is true
        self.why = None
        self.deadline = None     # virtual time at which a blocked task gives up
        self.wake_at = None      # stalled until this virtual time
        self.timed_out = False
        self.steps = 0
        self.thread = None

    def _main(self):
        self.go.acquire()
        k = self.kernel
        try:
            if self.killed:
                raise SimExit()
            self.result = self.fn()
        except SimExit:
            pass
        except BaseException as e:      # noqa: B902 - recorded, judged by the check
            self.error = e
        finally:
            self.done = True
            k._back.release()


class Deadlock(Exception):
    pass


class StepCap(Exception):
    pass


class Kernel:
    def __init__(self, chooser, step_cap=2_000_000, sticky=0.0, tick=1e-3):
        self.chooser = chooser
        self.tasks = []
        self.current = None
        self._back = threading.Semaphore(0)
        self.now = 1_700_000_000.0
        self.t0 = self.now
        self.tick = tick
        self.steps = 0
        self.switches = 0
        self.step_cap = step_cap
        self.sticky = sticky
        self.on_switch = None           # f(old_proc, new_proc)
        self._active_proc = None
        self.stalls = {}                # (task id, nth seam) -> seconds
        self.fired = {}                 # fault kind -> count
        self.sig = 0                    # rolling signature of the interleaving
        self.finished = False

    # -- set up ---------------------------------------------------------------
    def spawn(self, fn, name=None, proc=None):
        t = Task(self, len(self.tasks), name or f"t{len(self.tasks)}", fn, proc)
        t.thread = threading.Thread(target=t._main, daemon=True, name=t.name)
        self.tasks.append(t)
        t.thread.start()
        return t

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- called from tasks ----------------------------------------------------
    def in_task(self):
        return self.current is not None and threading.current_thread() is self.current.thread

    def seam(self, tag=None):
        """A point at which another task may run."""
        if not self.in_task():
            return
        t = self.current
        if t.killed:
            raise SimExit()
        t.steps += 1
        stall = self.stalls.get((t.id, t.steps))
        if stall:
            t.wake_at = self.now + stall
            self.count("stall")
        self._park(t)

    def block(self, pred, why="", timeout=None):
        """Wait until pred() holds. Returns False if the virtual timeout struck first."""
        t = self.current
        assert self.in_task()
        if t.killed:
            raise SimExit()
        t.pred, t.why = pred, why
        t.deadline = None if timeout is None else self.now + timeout
        t.timed_out = False
        self._park(t)
        t.pred = t.why = t.deadline = None
        return not t.timed_out

    def _park(self, t):
        self._back.release()
        t.go.acquire()
        if t.killed:
            raise SimExit()

    def freeze_current(self):
        """Kill the process of the current task on the spot: nothing of it runs any more."""
        t = self.current
        for u in self.tasks:
            if u.proc is t.proc:
                u.frozen = True
        self._park(t)

    # -- scheduler ------------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done or t.frozen:
                continue
            if t.wake_at is not None:
                if t.wake_at > self.now:
                    continue
                t.wake_at = None
            if t.pred is not None and not t.pred():
                if t.deadline is None or t.deadline > self.now:
                    continue
                t.timed_out = True
            out.append(t)
        return out

    def _next_time(self):
        ts = [x for t in self.tasks if not (t.done or t.frozen)
              for x in ((t.wake_at,) if t.wake_at is not None else (t.deadline,)) if x is not None]
        ts = [x for x in ts if x > self.now]
        return min(ts) if ts else None

    def _resume(self, t):
        if self.on_switch and t.proc is not self._active_proc:
            self.on_switch(self._active_proc, t.proc)
            self._active_proc = t.proc
        self.current = t
        t.go.release()
        self._back.acquire()
        self.current = None

    def run(self):
        """Run until every task is done or frozen."""
        last = None
        while True:
            live = [t for t in self.tasks if not t.done and not t.frozen]
            if not live:
                return
            run = self._runnable()
            if not run:
                nxt = self._next_time()
                if nxt is None:
                    raise Deadlock({t.name: t.why for t in live})
                self.now = nxt
                continue
            weights = None
            if self.sticky and last in run and len(run) > 1:
                w = (1 - self.sticky) / (len(run) - 1)
                weights = [self.sticky if t is last else w for t in run]
            t = run[self.chooser.choose(len(run), weights)]
            if t is not last:
                self.switches += 1
                self.sig = hash((self.sig, t.id, self.steps)) & 0xFFFFFFFFFFFF
            last = t
            self.steps += 1
            self.now += self.tick
            if self.steps > self.step_cap:
                raise StepCap(self.steps)
            self._resume(t)

    def close(self):
        """Unwind the threads of all unfinished tasks."""
        self.finished = True
        for t in self.tasks:
            for _ in range(10000):
                if t.done:
                    break
                t.killed, t.pred, t.wake_at, t.frozen = True, None, None, False
                self._resume(t)
            t.thread.join(5 if t.done else 0.1)
        if self.on_switch and self._active_proc is not None:
            self.on_switch(self._active_proc, None)
            self._active_proc = None


class SimLock:
    """Stands in for threading.Lock/RLock in simulated processes."""
    kernel = None   # set while a run is in progress

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        k = SimLock.kernel
        if k is not None and k.in_task() and not k.current.killed:
            k.seam("lock")
        if self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if k is None or not k.in_task():
                raise SimError("lock contention outside the simulation")
            ok = k.block(lambda: self.owner is None, "lock", None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
