"""F01: a failed operation surfaces and leaves the network usable."""
import copy
import os
import sys

import numpy as np
import torch

from .. import faults as F
from .. import ops as O
from .. import ref, work, zz
from ..core import Violation, sig_of
from ..procs import Process

ID = "F01"
LEVEL = "exploration"
NOTE = ("Seeded injection of failing tensor operations and interrupts at any call or source line of creating, renormalizing, "
        "evolving and measuring, on the real code; states compared with exact ones and with fresh processes.")
PLAN = {"quick": 360, "thorough": 12000, "case_timeout": 300}
RULE = ("A case is one operation (create, renormalize, evolve with full or simple update, measure, density matrices, copy) of a "
        "random configuration and one fault: out-of-memory (three kinds), failed factorisation, or interrupt at the nth "
        "tensor operation, or an interrupt at the nth source line; n is drawn uniformly over the operation. The error must "
        "reach the caller (failed factorisations may be recovered), all tensors must fit and be finite, renormalizations and "
        "measurements must leave the state (and a failed measurement everything) bit for bit alone, a converged network must "
        "still measure its converged values after a failed renormalization, a failed evolution must have applied a prefix of "
        "its gates exactly (commuting models, compared with the exact state) and keeps their order unless all were applied, the network can be measured and saved, and the "
        "repeated operation gives, bit for bit, what a fresh process gives for the same state. Non-trivial: the fault fired.")
DISTINCT = "hash of (configuration, operation, fault, position)"
REAL = ["all of acetn", "torch.save / torch.load (scratch directory)"]
STUB = ["failing tensor operations (at the boundary of torch)", "interrupts (raised at source lines)", "clocks", "console",
        "random generator state"]
ASSUME = ["an interrupt arrives between source lines of acetn or between tensor operations"]
KINDS = ["oom", "oom", "alloc", "memory", "interrupt", "linalg", "line", "line"]


def gen(rng, i, tier):
    op = rng.choice(["create", "renorm", "renorm", "evolve", "evolve", "evolve", "zz", "zz", "zz", "zz", "measure", "rdm", "copy", "first"])
    c = O.rand_cfg(rng, nmax=2 if tier == "quick" else 3, nmin=1 if rng.random() < 0.2 else 2, chis=(4, 6), steps=(2, 3), dtypes=("float64", "float64", "float64", "float32"))
    c["als_niter"] = rng.choice([6, 20])
    if op in ("zz", "first"):
        c.update(D=2, phys=2, dtype="float64", als_niter=20, chi=rng.choice([4, 6]), nx=2, ny=2)
        c["model"] = {"kind": "zz", "seed": rng.randrange(10 ** 6), "J": rng.choice([1.0, -1.0]), "g": 0.0, "phys": 2,
                      "wrap": rng.choice(["tensor", "pauli"]), "far": op == "first"}
    if op == "renorm" and rng.random() < 0.6:
        c.update(steps=8, chi=8, dtype="float64")
    return {"cfg": c, "op": op, "kind": rng.choice(KINDS), "frac": rng.random(), "state": rng.randrange(1 << 30),
            "oseed": rng.randrange(1 << 30), "tau": rng.choice([0.1, 0.3]),
            "near": rng.choice([None, "A", "A", "B", "name"]), "off": rng.randint(-3, 2), "npick": rng.random(),
            "pre": rng.random() < 0.6, "early": rng.random() < 0.3}


class Lines:
    """Raises KeyboardInterrupt at the nth source line executed in acetn."""

    def __init__(self, at=None):
        self.at, self.n, self.where, self.on_call = at, 0, None, None

    def _global(self, frame, event, arg):
        if "/acetn/" not in frame.f_code.co_filename or frame.f_code.co_name == "__del__":
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.on_call is not None:
                self.on_call(self.n, (frame.f_code.co_name, frame.f_lineno))
            if self.n == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise KeyboardInterrupt("injected")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def start(proc, case):
    c, op = case["cfg"], case["op"]
    if op == "create":
        return None
    if op == "first":
        # the first evolution also installs the model's initial state
        ip = work.new_network(proc, c)
        if case.get("pre"):
            # its boundary is already renormalized, to other dimensions
            ip.set_chi(3)
            ip.renormalize()
            ip.set_chi(c["chi"])
        return ip
    if op == "zz":
        return work.seeded_network(proc, c, zz.product(c, lambda s: work.start_state(c["model"], s)))
    ip = work.seeded_network(proc, c, work.random_state(c, case["state"], eps=0.25))
    if op in ("renorm", "measure", "rdm", "copy"):
        ip.renormalize()
    return ip


def act(proc, case, ip):
    op = case["op"]
    if op == "create":
        return work.new_network(proc, case["cfg"])
    if op == "renorm":
        return ip.renormalize()
    if op in ("evolve", "zz", "first"):
        return ip.evolve(case["tau"], 1)
    if op == "measure":
        return work.measure_dict(ip.measure())
    if op == "rdm":
        return work.rdms(proc, ip)
    if op == "copy":
        return ip.copy()
    raise ValueError(op)


def fresh(proc, case, snap, bonds):
    """A network carrying the same state in another process."""
    c = case["cfg"]
    ip = work.new_network(proc, c)
    if case["op"] != "first":
        ip = work.new_network(proc, c, src=ip)
    for site, (A, C, E) in snap.items():
        t = ip[site]
        t["A"], t["C"], t["E"] = A.clone(), [x.clone() for x in C], [x.clone() for x in E]
    Bond = proc.mod("ipeps.bond").Bond
    ip.bond_list[:] = [Bond(*b) for b in bonds]
    return ip


def injector(case, n=None):
    if case["kind"] == "line":
        return Lines(n)
    if n is None:
        return F.Counter()
    return F.Counter(F.at(n, case["kind"]), select=None)


def same(a, b, op):
    if op == "measure":
        return work.diff_meas(a, b)
    if op == "rdm":
        return work.diff_rdm(a, b, 0.0)
    if op in ("create", "copy"):
        return work.diff(work.snap(a), work.snap(b))
    return None


def run(case, out):
    c, op, kind = case["cfg"], case["op"], case["kind"]
    what = f"{op} with {kind}"
    p0 = Process("dry", torch_seed=case["oseed"])
    with p0:
        p0.load()
        ip = start(p0, case)
        names, writes = [], {"A": [], "B": []}
        inj = injector(case)
        last = [None, None]

        def watch(n, name):
            names.append(name)
            if ip is None:
                return
            # when a tensor of the network is replaced
            ts = [ip[s] for s in sites]
            a = [t["A"] for t in ts]
            b = [x for t in ts for x in list(t["C"]) + list(t["E"])]
            for j, (k, x) in enumerate((("A", a), ("B", b))):
                if last[j] is not None and any(u is not v for u, v in zip(x, last[j])):
                    writes[k].append(n)
            last[0], last[1] = a, b
        sites = work.sites_of(ip) if ip is not None else []
        inj.on_call = watch
        with inj:
            act(p0, case, ip)
        total = inj.n
        converged = None
        if op == "renorm" and c["steps"] >= 8:
            a = work.rdms(p0, ip)
            ip.renormalize()
            b = work.rdms(p0, ip)
            d = max(float(np.abs(a[k] - b[k]).max()) for k in a)
            if d < 1e-5:
                converged = (b, d)
        ip = None
    n = 1 + int(case["frac"] * total)
    if op == "first" and case.get("early"):
        # while the initial state is installed
        n = 1 + int(case["frac"] * min(total, 200))
    near = case["near"]
    if op == "first" and case.get("early") and kind != "linalg":
        near = None
    if kind == "linalg":
        # most operations cannot fail this way
        cand = [j + 1 for j, x in enumerate(names) if F.is_factorisation(x)]
        if not cand:
            out.trivial = True
            out.sig = sig_of(case)
            return
        n = cand[int(case["frac"] * len(cand))]
    elif near in ("A", "B") and writes[near]:
        # next to the moment a tensor of the network is replaced
        n = writes[near][int(case["frac"] * len(writes[near]))] + case["off"]
        n = min(max(1, n), total)
        out.probe("near-write")
    elif near == "name":
        # rare operations and lines get their share
        kinds = sorted(set(names))
        k = kinds[int(case["npick"] * len(kinds))]
        cand = [j + 1 for j, x in enumerate(names) if x == k]
        n = cand[int(case["frac"] * len(cand))]
    p1 = Process("p", torch_seed=case["oseed"])
    with O.scratch() as d, p1:
        p1.load()
        ip = start(p1, case)
        before = work.snap(ip) if ip is not None else None
        order = [tuple(b) for b in ip.bond_list] if ip is not None else None
        flags = torch.is_inference_mode_enabled(), torch.is_grad_enabled(), torch.get_default_dtype(), torch.get_num_threads()
        err, val = None, None
        inj = injector(case, n)
        try:
            with inj:
                val = act(p1, case, ip)
        except (Exception, KeyboardInterrupt) as e:
            err = e
            e.__traceback__ = None
        fired = bool(inj.where) if kind == "line" else bool(inj.raised)
        where = (inj.where if kind == "line" else f"call {n} of {total} ({names[n - 1]})")
        what = f"{op} with {kind} at {where}"
        if fired:
            out.count(kind)
        if err is None and fired and kind != "linalg":
            raise Violation("swallowed", f"{what}: the error did not reach the caller")
        if err is not None and not fired:
            raise Violation("error", f"{op} failed without a fault: {type(err).__name__}: {err}")
        if err is not None and not caused(err, kind):
            raise Violation("wrong-error", f"{what}: the caller got {type(err).__name__}: {err}")
        now = torch.is_inference_mode_enabled(), torch.is_grad_enabled(), torch.get_default_dtype(), torch.get_num_threads()
        if now != flags:
            raise Violation("mode-left", f"{what}: inference mode, gradients, default dtype, threads are {now}, before {flags}")
        out.probe("surfaced" if err is not None else "recovered" if fired else "no-fault")
        if op == "create":
            rng = torch.get_rng_state()
            new = must(lambda: act(p1, case, None), f"{what}: creating a network afterwards")
            other = elsewhere(p1, lambda p: snap_of(act(p, case, None)), rng)
            p = work.diff(work.snap(new), other)
            if p:
                raise Violation("retry", f"{what}: a network created afterwards differs: {p}")
        else:
            after(case, out, p1, ip, before, order, err, val, converged, what, d)
        out.note((where, type(err).__name__))
        ip = val = None
    out.steps += total
    out.trivial = not fired
    out.sig = sig_of(c, op, kind, n)


def snap_of(ip):
    return work.snap(ip)


def elsewhere(proc, f, rng):
    """Run f in a fresh simulated process with the given random stream."""
    proc.deactivate()
    try:
        p = Process("ref", torch_seed=3)
        with p:
            p.load()
            p.start_rng = rng
            torch.set_rng_state(rng)
            return f(p)
    finally:
        proc.activate()


def must(f, what):
    try:
        return f()
    except Exception as e:
        raise Violation("unusable", f"{what} failed: {type(e).__name__}: {str(e)[:300]}")


def caused(e, kind):
    """Is e the injected error, or one raised because of it?"""
    seen = set()
    if kind in ("line", "interrupt"):
        return isinstance(e, KeyboardInterrupt)
    while e is not None and id(e) not in seen:
        if "injected" in str(e):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def after(case, out, proc, ip, before, order, err, val, converged, what, d):
    c, op, kind = case["cfg"], case["op"], case["kind"]
    p = work.shape_problem(ip)
    if p:
        raise Violation("incompatible", f"{what}: {p}")
    snap, bonds, rng = work.snap(ip), [tuple(b) for b in ip.bond_list], torch.get_rng_state()
    if op in ("renorm", "measure", "rdm", "copy"):
        p = work.diff(snap, before, parts="A" if op == "renorm" else "ACE")
        if p:
            raise Violation("state-changed", f"{what}: {p}")
    if bonds != order and sorted(bonds) != sorted(order):
        raise Violation("state-changed", f"{what}: the bonds changed")
    if op == "renorm" and converged is not None:
        got = must(lambda: work.rdms(proc, ip), f"{what}: measuring afterwards")
        p = work.diff_rdm(got, converged[0], max(100 * converged[1], 2e-4))
        out.probe("converged")
        if p:
            raise Violation("mixed-boundary", f"{what}: a converged network no longer measures its values: {p}")
    if err is not None and bonds != order and not work.diff(snap, before, parts="A"):
        raise Violation("order-changed", f"{what}: no gate was applied, but the order of the next sweep has changed")
    if op in ("zz", "first"):
        gates(case, out, proc, ip, order, bonds, err, what)
    # usable: measured, saved
    m = must(lambda: work.measure_dict(ip.measure()), f"{what}: measuring afterwards")
    if not all(np.isfinite(v) for v in m.values()):
        raise Violation("unusable", f"{what}: measures {m}")
    path = os.path.join(d, "x.pt")
    must(lambda: ip.save(path), f"{what}: saving afterwards")
    n = work.new_network(proc, c)
    must(lambda: n.load(path), f"{what}: loading what was saved afterwards")
    p = work.diff(work.snap(n), snap)
    if p:
        raise Violation("unusable", f"{what}: saved afterwards, the checkpoint differs: {p}")
    p = work.diff(work.snap(ip), snap)
    if p:
        raise Violation("unusable", f"{what}: measuring and saving changed it: {p}")
    if op == "first":
        # whether the initial state is installed already is not visible from outside, but
        # repeated, the evolution must have started from it
        must(lambda: act(proc, case, ip), f"{what}: repeating it")
        if err is not None:
            initial(case, out, ip, order, what)
        return
    # the repeated operation gives what the same state gives elsewhere
    torch.set_rng_state(rng)
    v1 = must(lambda: act(proc, case, ip), f"{what}: repeating it")
    s1, b1 = work.snap(ip), [tuple(b) for b in ip.bond_list]

    def other(p):
        n = fresh(p, case, snap, bonds)
        torch.set_rng_state(rng)
        v = act(p, case, n)
        return work.snap(n), [tuple(b) for b in n.bond_list], v if op in ("measure", "rdm") else work.snap(v) if op == "copy" else None
    s2, b2, v2 = elsewhere(proc, other, rng)
    p = work.diff(s1, s2) or (None if b1 == b2 else "order of bonds")
    if p is None and op == "copy":
        p = work.diff(work.snap(v1), v2)
    elif p is None and op in ("measure", "rdm"):
        p = same(v1, v2, op)
    if p:
        raise Violation("retry", f"{what}: repeated, it differs from a fresh network with this state: {p}")


def gates(case, out, proc, ip, order, bonds, err, what):
    """The state must be a prefix of the gates applied to the start state, exactly."""
    c, spec, tau = case["cfg"], case["cfg"]["model"], case["tau"]
    if case["op"] == "first":
        return
    got, _ = ref.exact_rdms(zz.tensors(ip), c["nx"], c["ny"], 1024)
    best = None
    n = len(order)
    for k in ([n] if err is None else range(n, -1, -1)):
        w, _ = ref.exact_rdms(zz.evolved(c, spec, {b: 1 for b in order[:k]}, tau), c["nx"], c["ny"], 1024)
        dmax = max(float(np.abs(got[x] - w[x]).max()) for x in got)
        if best is None or dmax < best[0]:
            best = (dmax, k)
        if dmax < 1e-6:
            break
    out.probe("prefix-checked")
    if not best[0] < 1e-5:
        raise Violation("half-applied", f"{what}: the state is no prefix of the {n} gates applied to the start state "
                                        f"(closest: {best[1]} gates, density matrices differ by {best[0]:.2e})")
    if bonds != order and best[1] < n:
        raise Violation("order-changed", f"{what}: {best[1]} of {n} gates were applied, but the order of the next sweep has changed")


def initial(case, out, ip, order, what):
    c, spec, tau = case["cfg"], case["cfg"]["model"], case["tau"]
    got, _ = ref.exact_rdms(zz.tensors(ip), c["nx"], c["ny"], 256)
    best = None
    for k in range(len(order) + 1):
        applied = {b: 2 if j < k else 1 for j, b in enumerate(order)}
        w, _ = ref.exact_rdms(zz.evolved(c, spec, applied, tau), c["nx"], c["ny"], 256)
        dmax = max(float(np.abs(got[x] - w[x]).max()) for x in got)
        if best is None or dmax < best:
            best = dmax
        if best < 0.1:
            break
    out.probe("start-checked")
    out.note(round(best, 6))
    if not best < 0.25:
        raise Violation("wrong-start", f"{what}: repeated, the evolution did not start from the model's initial state "
                                       f"(density matrices differ by {best:.2e})")


def shrinks(case):
    for k, v in (("steps", 2), ("chi", 4), ("als_niter", 6)):
        if case["cfg"].get(k) != v:
            c = copy.deepcopy(case)
            c["cfg"][k] = v
            yield c
