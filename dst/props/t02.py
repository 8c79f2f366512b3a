"""T02: the same seed gives the same results."""
import copy
import gc
import json
import os
import random
import subprocess
import sys

import numpy as np
import torch

from .. import faults as F
from .. import ops as O
from .. import work
from ..core import Violation, sig_of
from ..procs import Clock, Process

ID = "T02"
LEVEL = "exploration"
NOTE = ("Seeded search over everything a run must not depend on (memory contents, process history, other random generators, hash "
        "seeds, process ids, clocks); results compared bit by bit.")
PLAN = {"quick": 170, "thorough": 5000, "case_timeout": 300}
RULE = ("A case runs one random script twice with the same torch seed: once in a plain fresh process and once with freshly "
        "allocated memory full of garbage (also NaN), after other networks were simulated (and kept, dropped or failed) in the "
        "process, with other states of Python's and numpy's generators, another process id, clock and heap layout, or in a new "
        "interpreter with another hash seed. All tensors after every operation, all measurements and the state of the random "
        "generator afterwards must be bit for bit the same. Non-trivial: always (the second run differs in at least one respect).")
DISTINCT = "hash of (configuration, script, disturbance)"
REAL = ["all of acetn", "the Python interpreter (hash-seed cases)"]
STUB = ["contents of newly allocated tensors", "random generators", "process id", "clocks", "console"]
ASSUME = ["the number of torch threads is the same in both runs"]
EMPTY = ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "resize_", "resize_as_", "empty_permuted")


def script(rng, c, n):
    ops = []
    for k in range(n):
        x = rng.random()
        if x < 0.5:
            ops.append(["evolve", rng.choice([0.02, 0.1]), rng.choice([1, 1, 2])])
        elif x < 0.65:
            ops.append(["renorm"])
        elif x < 0.72:
            ops.append(["chi", rng.choice([2, 4, 6])])
        elif x < 0.8:
            ops.append(O.rand_param_change(rng, c))
        elif x < 0.88:
            ops.append(["fork", f"o{k}"])
        else:
            ops.append(["measure"])
    return ops + [["measure"]]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2 if tier == "quick" else 3, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 5), steps=(1, 2), dtypes=("float64", "float64", "float32"))
    c["als_niter"] = 6
    if rng.random() < 0.7:
        c["svd_type"] = "rsvd"
    how = rng.choice(["memory", "history", "history", "generators", "all", "all", "all", "hashseed"])
    o = O.rand_cfg(rng, nmax=2, nmin=2, chis=(3, 5), steps=(1,))
    o["als_niter"] = 3
    if rng.random() < 0.5:
        o = copy.deepcopy(c)
    return {"cfg": c, "ops": script(rng, c, rng.randint(2, 4)), "how": how, "tseed": rng.randrange(1 << 30), "oseed": rng.randrange(1 << 30),
            "hist": {"cfg": o, "ops": [op for op in script(rng, o, 2) if op[0] != "params"], "fail": rng.choice([None, None, rng.randint(1, 2000)]),
                     "keep": rng.random() < 0.5}, "garbage": rng.choice(["nan", "huge", "random", "inf"]),
            "state": rng.randrange(1 << 30) if rng.random() < 0.4 else None}


def play(proc, case):
    c = case["cfg"]
    A = work.random_state(c, case["state"]) if case["state"] is not None else None
    d = O.Driver(proc, c, A)
    torch.manual_seed(case["tseed"])
    out = []
    for op in [["create"]] + case["ops"]:
        v = d.do(op)
        out.append((op, work.snap(d.ip), v if op[0] == "measure" else None))
    d.ip = None
    d.others.clear()
    return out, torch.get_rng_state()


def plain(case):
    p = Process("plain", torch_seed=1)
    with p:
        p.load()
        return play(p, case)


class Garbage:
    """Freshly allocated tensors hold whatever was there before."""

    def __init__(self, how, seed, out):
        self.how, self.r, self.out = how, random.Random(seed), out

    def __call__(self, n, name, r):
        if name in EMPTY and isinstance(r, torch.Tensor):
            self.out.count("garbage")
            if r.is_floating_point():
                if self.how == "nan":
                    r.fill_(float("nan"))
                elif self.how == "inf":
                    r.fill_(float("inf"))
                elif self.how == "huge":
                    r.fill_(1e30)
                else:
                    g = np.random.RandomState(self.r.randrange(1 << 30)).normal(size=tuple(r.shape)) * 10
                    r.copy_(torch.as_tensor(g))
            elif r.numel():
                r.fill_(77)
        return r


def run(case, out):
    how = case["how"]
    if case.get("emit"):
        return emit(case)
    a, rng_a = plain(case)
    if how == "hashseed":
        return hashseed(case, out, a)
    env = {}
    clock = Clock()
    if how in ("generators", "all"):
        clock = Clock(mode="wild", seed=case["oseed"])
    p = Process("other", torch_seed=case["oseed"], clock=clock)
    if how in ("generators", "all"):
        p.py_rng = random.Random(case["oseed"]).getstate()
        p.np_rng = np.random.RandomState(case["oseed"] & 0xFFFF).get_state()
        p.pid = 4000 + case["oseed"] % 20000
        out.count("generators")
    keep = []
    mode = F.Counter(None, post=Garbage(case["garbage"], case["oseed"], out)) if how in ("memory", "all") else None
    with p:
        p.load()
        if how in ("history", "all"):
            h = case["hist"]
            d = O.Driver(p, h["cfg"])
            cnt = F.Counter(F.at(h["fail"], "oom")) if h["fail"] else F.Counter()
            try:
                with cnt:
                    for op in [["create"]] + h["ops"]:
                        d.do(op)
            except Exception as e:
                e.__traceback__ = None
                if not cnt.raised:
                    raise Violation("error", f"the earlier simulation failed: {type(e).__name__}: {e}")
                out.count("oom")
            if h["keep"]:
                keep.append(d)
            junk = [torch.empty(int(x)) for x in np.random.RandomState(case["oseed"] & 0xFFFF).randint(1, 5000, 50)]
            del junk[::2]
            keep.append(junk)
            d = None
            out.count("history")
        try:
            if mode is not None:
                with mode:
                    b, rng_b = play(p, case)
            else:
                b, rng_b = play(p, case)
        except Exception as e:
            raise Violation("failed", f"{how}: the second run failed: {type(e).__name__}: {str(e)[:300]}")
        keep.clear()
    compare(a, b, how if mode is None else f"{how} ({case['garbage']})")
    if not torch.equal(rng_a, rng_b):
        raise Violation("differs", f"{how}: the runs drew different amounts of random numbers")
    out.note(work.digest(b[-1][1]))
    out.steps += len(case["ops"])
    out.probe(how)
    out.sig = sig_of(case)


def compare(a, b, how):
    for i, ((op, s, v), (_, s2, v2)) in enumerate(zip(a, b)):
        p = work.diff(s2, s)
        if p:
            raise Violation("differs", f"{how}: same seed, but after operation {i} {op}: {p}")
        if v is not None:
            p = work.diff_meas(v2, v)
            if p:
                raise Violation("differs", f"{how}: same seed, but operation {i} measures {p}")


def emit(case):
    r, g = plain(case)
    print("DIGEST", json.dumps([[work.digest(s), v] for _, s, v in r]), file=sys.__stdout__)
    sys.__stdout__.flush()


def hashseed(case, out, a):
    env = dict(os.environ, PYTHONHASHSEED=str(case["oseed"] % 4294967295), OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.pop("LD_PRELOAD", None)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ("import sys, json; sys.path.insert(0, %r); import torch; torch.set_num_threads(1); from dst.props import t02; "
            "from dst import core; t02.run(dict(json.loads(sys.stdin.read()), emit=True), core.Outcome())" % root)
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(case), capture_output=True, text=True, env=env, timeout=200)
    lines = [l for l in p.stdout.splitlines() if l.startswith("DIGEST ")]
    if not lines:
        raise RuntimeError(f"second interpreter failed: {p.stderr[-1500:]}")
    b = json.loads(lines[0][7:])
    for i, ((op, s, v), (dg, v2)) in enumerate(zip(a, b)):
        if work.digest(s) != dg:
            raise Violation("differs", f"hash seed: same seed, but after operation {i} {op} the tensors differ")
        if v is not None and work.diff_meas(v, v2):
            raise Violation("differs", f"hash seed: same seed, but operation {i} measures {work.diff_meas(v, v2)}")
    out.count("hashseed")
    out.probe("hashseed")
    out.note([d for d, _ in b])
    out.steps += len(case["ops"])
    out.sig = sig_of(case)


def shrinks(case):
    if case["how"] == "all":
        for h in ("memory", "history", "generators"):
            yield dict(copy.deepcopy(case), how=h)
    if case["hist"]["fail"]:
        c = copy.deepcopy(case)
        c["hist"]["fail"] = None
        yield c
