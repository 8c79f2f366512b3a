"""S03: loading a checkpoint is all or nothing."""
import copy
import errno
import os
import random

import torch

from .. import faults as F
from .. import fs
from .. import ops as O
from .. import work
from ..core import Violation, sig_of
from ..procs import Process
from .s02 import Lines, content, state

ID = "S03"
LEVEL = "fault_enumeration"
SHIM = True
NOTE = ("The real load code runs behind an interposed libc and fault-injecting tensor operations; every fault site of a load "
        "is a possible choice, files are damaged at random; tensors are compared bit by bit before and after.")
PLAN = {"quick": 600, "thorough": 20000, "case_timeout": 300}
RULE = ("A case gives a network in a random state a checkpoint that is damaged (missing, empty, a directory, truncated or "
        "corrupted anywhere, not a checkpoint, one site of it unusable), of another unit cell, or intact but hit by a failing "
        "or short read, a failing tensor operation or an interrupt at any source line. If load raises, every tensor and "
        "setting is exactly as before (an interrupted load may also be complete) and the network still renormalizes, measures and can load the intact file; if it "
        "returns, the checkpoint is installed completely. Wrong unit cells and unusable files must raise. Non-trivial: the "
        "damage or fault was reached.")
DISTINCT = "hash of (mode, fault site, both configurations)"
REAL = ["all of acetn", "torch.load", "the kernel's file system below the shim"]
STUB = ["open/read/close (interposed: errors and short reads)", "failing tensor operations", "interrupts", "clocks"]
ASSUME = ["torch.load does not verify checksums: damage inside tensor data may load; then only completeness is judged"]


def gen(rng, i, tier):
    mode = rng.choice(["missing", "empty", "dir", "truncate", "truncate", "corrupt", "corrupt", "alien", "poison", "poison", "cell",
                       "cell", "read", "read", "shortread", "memory", "memory", "interrupt", "interrupt", "ok", "dims"])
    c = {"nx": rng.randint(1, 3), "ny": rng.randint(1, 3), "D": 2, "chi": rng.choice([2, 4]), "phys": 2, "steps": 1,
         "dtype": rng.choice(["float64", "float64", "float32"]), "svd_type": rng.choice(["rsvd", "full-rank"])}
    c2 = dict(c, dtype=rng.choice(["float64", "float32"]), chi=rng.choice([2, 4, 5]))
    if mode == "cell":
        while (c2["nx"], c2["ny"]) == (c["nx"], c["ny"]):
            c2["nx"], c2["ny"] = rng.randint(1, 3), rng.randint(1, 3)
    if mode == "dims":
        c2["D"] = 3
    return {"mode": mode, "cfg": c, "cfg2": c2, "states": [rng.randrange(1 << 30) for _ in range(2)], "frac": rng.random(),
            "pick": rng.randrange(1 << 30), "renorm": rng.random() < 0.4, "twice": rng.random() < 0.4}


def build(proc, c, seed, renorm):
    ip = work.new_network(proc, c)
    work.set_state(ip, work.random_state(c, seed))
    if renorm:
        ip.renormalize()
    return ip


def damage(case, path, b):
    """Write a damaged checkpoint; returns whether a load must fail."""
    mode, r = case["mode"], random.Random(case["pick"])
    if mode == "missing":
        return True
    if mode == "dir":
        os.mkdir(path)
        return True
    must = False
    if mode == "empty":
        b, must = b"", True
    elif mode == "truncate":
        n = int(case["frac"] * len(b)) if r.random() < 0.7 else len(b) - 1 - r.randrange(min(400, len(b)))
        b, must = b[:n], True
    elif mode == "corrupt":
        b = bytearray(b)
        k = r.choice([1, 1, 8, 200, 4000])
        # a third of the damage goes to the pickled structure at the front, a third to the directory at the end
        z = r.random()
        span = (0, min(6000, len(b))) if z < 0.4 else (max(0, len(b) - 3000), len(b)) if z < 0.6 else (0, len(b))
        at = r.randrange(*span)
        how = r.choice(["flip", "zero", "junk"])
        for j in range(at, min(len(b), at + k)):
            b[j] = 0 if how == "zero" else b[j] ^ (1 << r.randrange(8)) if how == "flip" else r.randrange(256)
        b = bytes(b)
    with open(path, "wb") as f:
        f.write(b)
    return must


def alien(case, path, good):
    r = random.Random(case["pick"])
    d = torch.load(good, weights_only=False)
    t = d["tensors"] if isinstance(d, dict) and "tensors" in d else None
    if case["mode"] == "alien":
        torch.save(r.choice([{}, [1, 2], torch.zeros(3), {"tensor_network": None}, {"tensors": {}}, None, "text", {"tensors": None},
                             {"tensors": [1, 2, 3]}]), path)
        return True
    if t is None:
        return None
    sites = sorted(t)
    s = sites[int(case["frac"] * len(sites))] if r.random() < 0.6 else sites[-1]
    how = r.choice(["none", "gone", "A", "C", "E"])
    if how == "none":
        t[s] = None
    elif how == "gone":
        del t[s]
    else:
        for name, v in list(vars(t[s]).items()):
            if how == "A" and isinstance(v, torch.Tensor):
                setattr(t[s], name, None)
            if isinstance(v, list) and v and isinstance(v[0], torch.Tensor) and how == ("C" if v[0].ndim == 2 else "E"):
                setattr(t[s], name, v[:-1] + [None])
    torch.save(d, path)
    return True


def run(case, out):
    c, c2, mode = case["cfg"], case["cfg2"], case["mode"]
    proc = Process("p", torch_seed=3)
    with O.scratch() as d, proc:
        proc.load()
        good, path = os.path.join(d, "good.pt"), os.path.join(d, "state.pt")
        src = build(proc, c2, case["states"][0], case["renorm"])
        src.save(good)
        saved = work.snap(src)
        ip = build(proc, c, case["states"][1], not case["renorm"])
        before = work.snap(ip)
        want = {k: (A.to(ip.dtype), [x.to(ip.dtype) for x in C], [x.to(ip.dtype) for x in E]) for k, (A, C, E) in saved.items()}
        intact = mode in ("read", "shortread", "memory", "interrupt", "ok", "dims", "cell")
        must = False
        if mode in ("alien", "poison"):
            must = alien(case, path, good)
            if must is None:
                out.trivial = True
                return
        elif intact:
            path = good
            must = mode == "cell"
        else:
            must = damage(case, path, content(good))
        plan = dry(case, proc, c, path) if mode in ("read", "memory", "interrupt") else None
        set0 = state(ip)
        for attempt in range(2 if case["twice"] else 1):
            raised = load(case, out, ip, path, plan, d)
            what = f"load with {mode}" + (f" (raised {type(raised).__name__}: {str(raised)[:120]})" if raised else "")
            if raised is not None:
                p = work.diff(work.snap(ip), before)
                if p and mode == "interrupt" and work.diff(work.snap(ip), want) is None:
                    out.probe("interrupted-when-complete")
                    p = work.diff(work.snap(ip), want)
                    set0 = state(ip)
                    before = want
                if p or state(ip) != set0:
                    raise Violation("half-loaded", f"{what}: the network changed: {p or (set0, state(ip))}")
                out.probe("raised")
                if mode in ("ok", "shortread"):
                    raise Violation("refused", f"{what}: an intact checkpoint cannot be loaded")
            else:
                out.probe("loaded")
                if must:
                    raise Violation("unreported", f"{what}: reported no error")
                complete(mode, what, work.snap(ip), want, before)
                break
        if raised is not None:
            usable(case, ip, before, what)
            if mode != "cell":
                ip.load(good)
                p = work.diff(work.snap(ip), want)
                if p:
                    raise Violation("later-load", f"after {what}, loading the intact file gives {p}")
        elif mode not in ("corrupt", "dims"):
            ip.renormalize()
            ip.measure()
        out.steps += 3
        out.count(mode)
        out.note((mode, raised is None, type(raised).__name__, plan))
        del ip, src
    out.sig = sig_of(mode, c, c2, plan, case["pick"] if mode in ("corrupt", "alien", "poison") else None,
                     case["frac"] if mode in ("truncate", "poison") else None)


def complete(mode, what, got, want, before):
    p = work.diff(got, want)
    if not p:
        return
    if mode != "corrupt":
        raise Violation("incomplete", f"{what}: succeeded, but {p}")
    if set(got) != set(want):
        raise Violation("incomplete", f"{what}: succeeded with sites {sorted(got)}")
    old = dict(work.flat(before))
    new = dict(work.flat(want))
    for k, t in work.flat(got):
        o = old.get(k)
        if o is not None and o.shape == t.shape and torch.equal(o, t) and not (k in new and torch.equal(new[k], t)):
            raise Violation("incomplete", f"{what}: succeeded, but {k} is still the old one")


def usable(case, ip, before, what):
    try:
        m1 = work.measure_dict(ip.measure())
        ip.renormalize()
        m2 = work.measure_dict(ip.measure())
    except Exception as e:
        raise Violation("unusable", f"after {what} the network fails: {type(e).__name__}: {e}")
    if not all(v == v for v in list(m1.values()) + list(m2.values())):
        raise Violation("unusable", f"after {what} measurements are not numbers: {m1} {m2}")


def dry(case, proc, c, path):
    """Number of reads, tensor operations or lines of an undisturbed load, to place the fault."""
    ip = build(proc, c, 5, False)
    if case["mode"] == "read":
        rec = fs.Recorder(os.path.dirname(path))
        with rec:
            ip.load(path)
        if rec.error:
            raise rec.error
        calls = [i for i, x in enumerate(rec.calls) if x[0] in ("read", "open", "close")]
        return calls[int(case["frac"] * len(calls))]
    if case["mode"] == "memory":
        with F.Counter() as k:
            ip.load(path)
        return 1 + int(case["frac"] * k.n)
    with Lines() as l:
        ip.load(path)
    # half of the interrupts go to the end of the load, where the state is installed
    n = int(case["frac"] * l.n)
    return 1 + (n if case["pick"] % 2 else l.n - int(case["frac"] * min(l.n, 150)))


def load(case, out, ip, path, plan, d):
    mode, r = case["mode"], random.Random(case["pick"])
    struck = []

    def on_pre(i, kind, wr, name, n):
        if mode == "shortread" and kind == "read":
            struck.append("short-read")
            return max(1, int(n * r.random())) if n > 1 else 0
        if mode == "read" and i == plan:
            struck.append("read-error")
            return -r.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.ENOMEM])
        return 0
    try:
        if mode in ("read", "shortread"):
            rec = fs.Recorder(d, on_pre)
            with rec:
                ip.load(path)
            if rec.error:
                raise rec.error
        elif mode == "memory":
            k = F.Counter(F.at(plan, r.choice(["oom", "alloc", "memory"])))
            try:
                with k:
                    ip.load(path)
            finally:
                if k.raised:
                    struck.append("memory")
        elif mode == "interrupt":
            l = Lines(plan)
            try:
                with l:
                    ip.load(path)
            finally:
                if l.where:
                    struck.append("interrupt")
        else:
            ip.load(path)
        return None
    except (Exception, KeyboardInterrupt) as e:
        e.__traceback__ = None
        return e
    finally:
        for s in struck:
            out.count("injected-" + s)


def shrinks(case):
    for k in ("nx", "ny"):
        if case["cfg"][k] > 1 and case["mode"] != "cell":
            x = copy.deepcopy(case)
            x["cfg"][k] = x["cfg2"][k] = 1
            yield x
    for k in ("renorm", "twice"):
        if case[k]:
            yield dict(copy.deepcopy(case), **{k: False})
