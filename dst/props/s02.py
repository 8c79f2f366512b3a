"""S02: a crash or I/O error while saving never costs the previous checkpoint."""
import copy
import errno
import os
import random
import sys

import torch

from .. import faults as F
from .. import fs
from .. import ops as O
from .. import work
from ..core import Violation, sig_of
from ..kernel import Chooser, Deadlock, Kernel, SimExit, SimLock, StepCap
from ..procs import Clock, Process

ID = "S02"
LEVEL = "fault_enumeration"
SHIM = True
NOTE = ("The real save code runs on a scratch directory behind an interposed libc. Every crash point of each recorded save is "
        "enumerated (every call boundary, torn writes; power loss with sampled loss of unsynced data), errors are injected at "
        "seeded calls, and concurrent savers are interleaved at every file operation. The power-loss model (ordered names, "
        "arbitrary loss of data not forced to disk) is an assumption about file systems.")
PLAN = {"quick": 260, "thorough": 12000, "case_timeout": 300}
RULE = ("A case saves a random network over a missing or existing checkpoint. crash: the log of the save's file operations "
        "gives every directory a process crash (between any two calls, inside any write) or a power failure (unsynced data "
        "lost, torn or zeroed; recent renames lost) could leave; each must load as exactly the old or the new state. error: "
        "one call, or all calls from one on, or every write beyond a disk quota fails or is cut short; success means the new "
        "state is there, an exception means the old or the new one is. memory / interrupt: a tensor operation fails or the "
        "user interrupts at any source line. concurrent: 2-4 threads and processes save (and load) the same path, switched at "
        "every file operation, some killed there. Afterwards the live network is unchanged and saving again works. "
        "Non-trivial: the save reached the file system under the fault or crash.")
DISTINCT = "hash of (mode, configuration, fault, order of file operations and tasks)"
REAL = ["all of acetn", "torch.save / torch.load", "the kernel's file system (scratch directory), below the shim"]
STUB = ["open/write/fsync/rename/unlink/truncate/close and variants (interposed: errors, short writes, scheduling)",
        "crash images (directory rebuilt from the log)", "process death of concurrent savers", "clocks", "pids"]
ASSUME = ["names become durable in the order of the calls, file data only by fsync (or by chance)",
          "a crash image equal byte for byte to the old or new checkpoint file loads as that state"]

ERR = {"write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "open": ["EMFILE", "EACCES", "EROFS", "ENOSPC", "ENOENT", "EIO"],
       "fsync": ["EIO", "ENOSPC", "EDQUOT"], "rename": ["EIO", "EACCES", "EBUSY", "ENOSPC"], "close": ["EIO", "ENOSPC", "EDQUOT"],
       "unlink": ["EIO", "EACCES"], "other": ["EIO", "EPERM"]}


def gen(rng, i, tier):
    mode = rng.choice(["crash", "crash", "error", "error", "error", "concurrent", "concurrent", "interrupt", "memory"])
    c = {"nx": rng.randint(1, 3), "ny": rng.randint(1, 3), "D": rng.choice([2, 2, 3]), "chi": rng.choice([2, 4, 6]), "phys": 2,
         "dtype": rng.choice(["float64", "float32"]), "steps": 1}
    case = {"mode": mode, "cfg": c, "states": [rng.randrange(1 << 30) for _ in range(6)], "old": rng.random() < 0.75,
            "path": rng.choice(["str", "str", "symlink", "sub", "bare", "relative"]), "frac": rng.random(), "pick": rng.randrange(1 << 30)}
    if mode == "error":
        case["fault"] = rng.choice(["errno", "errno", "errno", "short", "persist", "full", "eintr", "nodir", "isdir"])
    elif mode == "memory":
        case["fault"] = rng.choice(["oom", "alloc", "memory"])
    elif mode == "concurrent":
        n = rng.randint(2, 4)
        case["tasks"] = [{"proc": rng.randrange(3), "do": "save" if k < 2 else rng.choice(["save", "load"]),
                          "times": rng.choice([1, 1, 2])} for k in range(n)]
        if rng.random() < 0.3:
            for t in case["tasks"]:
                t["proc"] = 0
        case["faults"] = []
        if rng.random() < 0.5:
            case["faults"].append({"task": rng.randrange(n), "what": rng.choice(["kill", "kill", "errno"]), "nth": int(1 + rng.random() ** 2 * 80)})
        case["sticky"] = rng.choice([0.0, 0.5, 0.9])
    return case


class Site:
    """One process with a network and a checkpoint path."""

    def __init__(self, case, d, name="p", proc=None):
        self.case, self.d = case, d
        self.proc = proc or Process(name, torch_seed=1)
        self.path = {"str": os.path.join(d, "state.pt"), "symlink": os.path.join(d, "link.pt"), "bare": os.path.join(d, "state"),
                     "sub": os.path.join(d, "sub", "state.pt"), "relative": "state.pt"}[case["path"]]
        self.abs = os.path.join(d, "state.pt") if case["path"] == "relative" else self.path

    def prepare_dir(self):
        if self.case["path"] == "symlink":
            os.mkdir(os.path.join(self.d, "data"))
            os.symlink(os.path.join("data", "real.pt"), self.path)
        if self.case["path"] == "sub":
            os.mkdir(os.path.join(self.d, "sub"))

    def network(self, k):
        ip = work.new_network(self.proc, self.case["cfg"])
        work.set_state(ip, work.random_state(self.case["cfg"], self.case["states"][k]))
        return ip


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Judge:
    """Which of the allowed states (name -> snapshot) does a checkpoint hold?"""

    def __init__(self, case, allowed):
        self.case, self.allowed, self.bytes, self.cache = case, allowed, {}, {}

    def load(self, proc, path):
        ip = work.new_network(proc, self.case["cfg"])
        ip.load(path)
        s = work.snap(ip)
        for n, a in self.allowed.items():
            if a is not None and work.diff(s, a) is None:
                return n
        return None

    def real(self, site, what, cls="lost"):
        """The checkpoint on disk must be one of the allowed states (None: absent)."""
        if not os.path.exists(site.abs):
            if None in self.allowed:
                return None
            raise Violation(cls, f"{what}: the checkpoint is gone")
        try:
            n = self.load(site.proc, site.abs)
        except Exception as e:
            raise Violation(cls, f"{what}: the checkpoint cannot be loaded: {type(e).__name__}: {str(e)[:200]}")
        if n is None:
            raise Violation(cls, f"{what}: the checkpoint holds neither the old nor the new state")
        return n

    def image(self, site, m, what, cls):
        b = m.read(site.abs)
        if b is None and None in self.allowed and m.resolve(site.abs) not in m.entries:
            return
        if b is not None and b in self.bytes:
            return
        key = hash(tuple(sorted((p, bytes(v[1]) if v[0] == "f" else v) for p, v in m.tree().items())))
        if key in self.cache:
            return
        with O.scratch() as d2:
            root = os.path.join(d2, "img")
            os.mkdir(root)
            m.materialise(site.d, root)
            p = os.path.join(root, os.path.relpath(site.abs, site.d))
            if not os.path.exists(p):
                if None not in self.allowed:
                    raise Violation(cls, f"{what}: the checkpoint is gone")
            else:
                try:
                    n = self.load(site.proc, p)
                except Exception as e:
                    raise Violation(cls, f"{what}: the checkpoint cannot be loaded: {type(e).__name__}: {str(e)[:200]}")
                if n is None:
                    raise Violation(cls, f"{what}: the checkpoint holds neither the old nor the new state")
        self.cache[key] = True


class at_dir:
    """Working directory for relative paths."""

    def __init__(self, case, d):
        self.on, self.d = case["path"] == "relative", d

    def __enter__(self):
        self.old = os.getcwd()
        if self.on:
            os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def run(case, out):
    with O.scratch() as d:
        if case["mode"] == "concurrent":
            concurrent(case, out, d)
        else:
            single(case, out, d)


def single(case, out, d):
    mode = case["mode"]
    site = Site(case, d)
    site.prepare_dir()
    with site.proc, at_dir(case, d):
        site.proc.load()
        allowed = {}
        if case["old"]:
            old = site.network(0)
            old.save(site.path)
            allowed["old"] = work.snap(old)
        else:
            allowed[None] = None
        judge = Judge(case, allowed)
        judge.bytes[content(site.abs)] = "old"
        ip = site.network(1)
        new = work.snap(ip)
        allowed["new"] = new
        before = state(ip)
        with O.scratch() as dry:
            plan = dry_run(case, site, ip, dry) if mode in ("error", "interrupt", "memory") else None
        rec = fs.Recorder(d, None)
        raised = attempt(case, out, site, ip, rec, plan)
        out.note([c[0] for c in rec.calls])
        out.steps += len(rec.calls)
        if rec.error is not None:
            raise rec.error
        what = f"save with {mode} {case.get('fault', '')}" + (f" (raised {type(raised).__name__}: {str(raised)[:120]})" if raised else "")
        p = work.diff(work.snap(ip), new)
        if p or state(ip) != before:
            raise Violation("live-changed", f"{what}: the live network changed: {p}")
        if mode == "crash":
            if raised is not None:
                raise raised
            if judge.real(site, what) != "new":
                raise Violation("lost", f"{what}: the checkpoint is not the new state")
            crash_images(case, out, site, judge, rec)
        elif case.get("fault") in ("nodir", "isdir"):
            if raised is None:
                raise Violation("unreported", f"{what}: saving to an impossible path reported nothing")
        else:
            n = judge.real(site, what)
            if raised is None and n != "new":
                raise Violation("unreported", f"{what}: reported no error, but the checkpoint is {'missing' if n is None else n}")
        later = site.network(2)
        allowed["later"] = work.snap(later)
        later.save(site.path)
        if judge.real(site, f"after {what}, the next save") != "later":
            raise Violation("later-save", f"after {what}, the next save did not replace the checkpoint")
        out.probe("raised" if raised is not None else "completed")
    out.sig = sig_of(mode, case["cfg"], case.get("fault"), case["old"], case["path"], plan, [c[0] for c in rec.calls])


def state(ip):
    return {"dims": dict(ip.dims), "bonds": [tuple(b) for b in ip.bond_list], "sites": list(ip.site_list), "nx": ip.nx, "ny": ip.ny,
            "dtype": str(ip.dtype), "init": bool(ip.site_states_initialized), "rng": torch.get_rng_state().sum().item()}


class Lines:
    """Raises KeyboardInterrupt at the nth line executed in acetn or torch's serialisation."""

    def __init__(self, at=None):
        self.at, self.n, self.where = at, 0, None

    def _wanted(self, f):
        n = f.f_code.co_filename
        return "/acetn/" in n or n.endswith("torch/serialization.py") or n.endswith("contextlib.py")

    def _global(self, frame, event, arg):
        return self._local if self._wanted(frame) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise KeyboardInterrupt("injected")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def dry_run(case, site, ip, d):
    """Where in a save the fault goes: number of calls, lines or tensor operations."""
    path = os.path.join(d, "x.pt")
    if case["mode"] == "interrupt":
        with Lines() as l:
            ip.save(path)
        return 1 + int(case["frac"] * (l.n + 2))
    if case["mode"] == "memory":
        with F.Counter() as k:
            ip.save(path)
        return 1 + int(case["frac"] * k.n)
    rec = fs.Recorder(d)
    with rec:
        ip.save(path)
    if rec.error:
        raise rec.error
    calls = [(i, c) for i, c in enumerate(rec.calls) if c[1]]
    f = case["fault"]
    if f == "full":
        return int(case["frac"] * sum(c[3] for _, c in calls if c[0] == "write"))
    if f == "short":
        calls = [x for x in calls if x[1][0] == "write"]
    # half of the faults go to the rare kinds of calls
    r = random.Random(case["pick"])
    kinds = sorted({c[0] for _, c in calls})
    k = r.choice(kinds)
    pool = [i for i, c in calls if c[0] == k] if r.random() < 0.6 else [i for i, c in calls]
    return pool[int(case["frac"] * len(pool))]


def attempt(case, out, site, ip, rec, plan):
    mode, fault = case["mode"], case.get("fault")
    r = random.Random(case["pick"])
    path = site.path
    used = [0]
    ctx = None

    def on_pre(i, kind, wr, name, n):
        if not wr:
            return 0
        if fault == "full":
            if kind == "write":
                room = plan - used[0]
                if room <= 0:
                    out.count("ENOSPC")
                    return -errno.ENOSPC
                k = min(room, n)
                used[0] += k
                return k
            return 0
        if fault == "persist":
            if i >= plan and kind in ("write", "open", "fsync", "rename", "ftruncate", "link", "mkdir"):
                out.count("persistent-EIO")
                return -errno.EIO
            return 0
        if i != plan:
            return 0
        if fault == "short":
            out.count("short-write")
            return max(1, int(n * r.random())) if n > 1 else 0
        if fault == "eintr":
            if kind in ("write", "fsync", "open"):
                out.count("EINTR")
                return -errno.EINTR
            return 0
        e = r.choice(ERR.get(kind, ERR["other"]))
        out.count(f"{kind}:{e}")
        return -getattr(errno, e)
    if mode == "error":
        rec.on_pre = on_pre
        if fault == "nodir":
            path = os.path.join(site.d, "no", "such", "dir", "x.pt")
            out.count("nodir")
        if fault == "isdir":
            path = os.path.join(site.d, "folder")
            os.mkdir(path)
            rec = fs.Recorder(site.d, None)
            out.count("isdir")
    try:
        with rec:
            if mode == "interrupt":
                ctx = Lines(plan)
                with ctx:
                    ip.save(path)
            elif mode == "memory":
                ctx = F.Counter(F.at(plan, fault))
                with ctx:
                    ip.save(path)
            else:
                ip.save(path)
        return None
    except (Exception, KeyboardInterrupt) as e:
        if rec.error is not None:
            raise rec.error
        return e
    finally:
        if mode == "interrupt" and ctx is not None and ctx.where:
            out.count("interrupt")
        if mode == "memory" and ctx is not None and ctx.raised:
            out.count(fault)


def crash_images(case, out, site, judge, rec):
    judge.bytes[content(site.abs)] = "new"
    if not rec.consistent():
        out.probe("unmodelled-file-operations")
        out.trivial = True
        return
    rng = random.Random(case["pick"])
    n = 0
    for what, m in rec.process_crashes(rng):
        judge.image(site, m, f"process crash {what}", "crash")
        n += 1
    out.count("process-crash", n)
    n = 0
    for k in range(len(rec.log) + 1):
        last = rec.log[k - 1][0] if k else None
        for _ in range(2 if last == "write" else 8):
            what, m = rec.machine_crash(rng, k)
            judge.image(site, m, what, "power")
            n += 1
    out.count("machine-crash", n)


# ---- concurrent savers ---------------------------------------------------------
def concurrent(case, out, d):
    kernel = Kernel(Chooser(case["seed"], case.get("choices")), step_cap=200_000, sticky=case["sticky"])

    def switch(a, b):
        if a is not None:
            a.deactivate()
        if b is not None:
            b.activate()
    kernel.on_switch = switch
    case = dict(case, path=case["path"] if case["path"] != "relative" else "str")
    procs = {}
    for t in case["tasks"]:
        if t["proc"] not in procs:
            p = procs[t["proc"]] = Process(f"p{t['proc']}", torch_seed=t["proc"], clock=Clock(kernel))
            p.pid = 4000 + t["proc"]
    sites = {k: Site(case, d, proc=p) for k, p in procs.items()}
    first = sites[case["tasks"][0]["proc"]]
    first.prepare_dir()
    allowed = {}
    nets, results, dead, faulted = {}, {}, set(), set()
    for k, s in sites.items():
        with s.proc:
            s.proc.load()
            if case["old"] and not allowed:
                o = s.network(5)
                o.save(s.path)
                allowed["old"] = work.snap(o)
            for j, t in enumerate(case["tasks"]):
                if t["proc"] == k:
                    nets[j] = s.network(j)
    if not case["old"]:
        allowed[None] = None
    for j, t in enumerate(case["tasks"]):
        if t["do"] == "save":
            allowed[f"saver {j}"] = work.snap(nets[j])
    judge = Judge(case, allowed)
    calls = {}
    trace = []

    def on_pre(i, kind, wr, name, n):
        t = kernel.current
        if t is None or not kernel.in_task():
            return 0
        if t.killed or t.id in dead:
            return -errno.EIO
        calls[t.id] = calls.get(t.id, 0) + 1
        for f in case["faults"]:
            if f["task"] == t.id and f["nth"] == calls[t.id]:
                if f["what"] == "kill":
                    out.count("kill")
                    dead.update(u.id for u in kernel.tasks if u.proc is t.proc)
                    try:
                        kernel.freeze_current()
                    except SimExit:
                        pass
                    return -errno.EIO
                if wr:
                    out.count("EIO")
                    faulted.add(t.id)
                    return -errno.EIO
        trace.append((t.id, kind))
        try:
            kernel.seam(kind)
        except SimExit:
            dead.add(t.id)
            return -errno.EIO
        return 0

    def body(j, t):
        def f():
            s = sites[t["proc"]]
            r = results[j] = []
            for _ in range(t["times"]):
                try:
                    if t["do"] == "save":
                        nets[j].save(s.path)
                        r.append(("ok", None))
                    else:
                        nets[j].load(s.path)
                        r.append(("ok", work.snap(nets[j])))
                except Exception as e:
                    r.append(("raised", e))
                    if kernel.finished:
                        return
        return f
    rec = fs.Recorder(d, on_pre)
    SimLock.kernel = kernel
    try:
        with rec:
            try:
                for j, t in enumerate(case["tasks"]):
                    kernel.spawn(body(j, t), f"task{j}", procs[t["proc"]])
                kernel.run()
            except Deadlock as e:
                raise Violation("deadlock", f"savers wait for each other: {e}")
            except StepCap as e:
                raise Violation("endless", f"not finished after {e} steps")
            finally:
                frozen = set(dead)
                kernel.close()
    finally:
        SimLock.kernel = None
        out.choices = list(kernel.chooser.trace)
        out.sim_s += kernel.now - kernel.t0
        out.steps += kernel.steps
    if rec.error:
        raise rec.error
    what = f"{len(case['tasks'])} concurrent tasks on {len(procs)} processes"
    done = 0
    for j, t in enumerate(case["tasks"]):
        if j in frozen:
            continue
        for st, v in results.get(j, []):
            if st == "raised":
                if j in faulted:
                    continue
                if t["do"] == "load" and isinstance(v, FileNotFoundError) and not case["old"]:
                    continue
                raise Violation("concurrent-" + t["do"], f"{what}: {t['do']} of task {j} failed: {type(v).__name__}: {str(v)[:200]}")
            if t["do"] == "save":
                done += 1
            elif not any(a is not None and work.diff(v, a) is None for a in allowed.values()):
                raise Violation("mixed-load", f"{what}: task {j} loaded a state nobody saved")
    with first.proc:
        n = judge.real(first, what, "concurrent")
        if done and n in ("old", None):
            raise Violation("concurrent", f"{what}: savers reported success but the checkpoint is {n}")
        if rec.consistent() and not case["faults"]:
            rng = random.Random(case["pick"])
            k = 0
            for w, m in rec.process_crashes(rng, 1):
                judge.image(first, m, f"{what}, all stopped {w}", "crash")
                k += 1
            for q in range(0, len(rec.log) + 1, 3):
                w, m = rec.machine_crash(rng, q)
                judge.image(first, m, f"{what}, {w}", "power")
                k += 1
            out.count("crash-while-concurrent", k)
        later = first.network(4)
        allowed["later"] = work.snap(later)
        later.save(first.path)
        if judge.real(first, f"after {what}, the next save") != "later":
            raise Violation("later-save", f"after {what}, the next save did not replace the checkpoint")
    for j, t in enumerate(case["tasks"]):
        if t["do"] == "save" and j not in frozen:
            p = work.diff(work.snap(nets[j]), allowed[f"saver {j}"])
            if p:
                raise Violation("live-changed", f"{what}: network of task {j} changed: {p}")
    out.probe("concurrent-saves", done)
    out.note((kernel.sig, trace, n))
    out.sig = sig_of("concurrent", case["tasks"], trace)


def shrinks(case):
    if case["mode"] == "concurrent":
        for j in range(len(case["tasks"])):
            if len(case["tasks"]) > 1:
                c = copy.deepcopy(case)
                del c["tasks"][j]
                c["faults"] = [dict(f, task=f["task"] - (f["task"] > j)) for f in c["faults"] if f["task"] != j]
                c["choices"] = []
                yield c
    for k in ("nx", "ny"):
        if case["cfg"][k] > 1:
            c = copy.deepcopy(case)
            c["cfg"][k] = 1
            yield c
    if case["path"] != "str":
        yield dict(copy.deepcopy(case), path="str")
