"""Operations a user applies to a network, as JSON-able lists, and their interpreter."""
import contextlib
import os
import shutil
import tempfile

import torch

from . import work


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="dst-", dir="/tmp")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


MOVES = ("left", "right", "up", "down")


class Driver:
    """One user script working on networks of one (simulated) process."""

    def __init__(self, proc, c, A=None, workdir=None, rank=0):
        self.proc, self.c, self.workdir, self.rank = proc, c, workdir, rank
        self.ip = None
        self.others = {}
        self.A = A
        self.files = {}

    def create(self):
        self.ip = work.new_network(self.proc, self.c)
        if self.A is not None:
            src = self.ip
            work.set_state(src, self.A)
            self.ip = work.new_network(self.proc, self.c, src=src)
            del src

    def path(self, name):
        return os.path.join(self.workdir, name)

    def do(self, op):
        ip, kind, args = self.ip, op[0], op[1:]
        if kind == "create":
            return self.create()
        if kind == "renorm":
            return ip.renormalize()
        if kind == "evolve":
            return ip.evolve(dtau=args[0], steps=args[1])
        if kind == "measure":
            return work.measure_dict(ip.measure())
        if kind == "chi":
            return ip.set_chi(args[0])
        if kind == "params":
            return ip.set_model_params(**args[0])
        if kind == "model":
            m = args[0]
            return ip.set_model(work.make_model_class(self.proc, m, m.get("wrap", "tensor")),
                                {"J": m.get("J", 1.0), "g": m.get("g", 0.0)})
        if kind == "steps":
            ip.config.ctmrg.steps = args[0]
            return None
        if kind == "save":
            return ip.save(self.path(args[0]))
        if kind == "save0":
            if self.rank == 0:
                ip.save(self.path(args[0]))
            return None
        if kind == "load":
            return ip.load(self.path(args[0]))
        if kind == "copy":
            self.others[args[0]] = ip.copy()
            return None
        if kind == "to":
            self.others[args[0]] = ip.to(dtype=getattr(torch, args[1]))
            return None
        if kind == "fork":
            # a new network created from the current one takes its place
            self.others[args[0]] = self.ip
            self.ip = work.new_network(self.proc, self.c, src=ip)
            return None
        if kind == "move":
            mover = self.proc.mod("renormalization.directional_mover").DirectionalMover(ip.config.ctmrg)
            n = ip.nx if args[0] in ("left", "right") else ip.ny
            return getattr(mover, args[0] + "_move")(ip, args[1] % n)
        if kind == "dmove":
            mover = self.proc.mod("renormalization.directional_mover").DirectionalMover(ip.config.ctmrg)
            n = ip.nx if args[0] == "lr" else ip.ny
            f = mover.left_right_move_dist if args[0] == "lr" else mover.up_down_move_dist
            return f(ip, args[1] % n, args[2] % n)
        if kind == "seed":
            torch.manual_seed(args[0])
            return None
        if kind == "fault":
            # the operation is hit by a failing tensor operation
            from . import faults as F
            try:
                with F.Counter(F.at(args[0], args[1])):
                    self.do(args[2])
                return "completed"
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                return type(e).__name__
        raise ValueError(kind)


# ---- random generation -------------------------------------------------------
def rand_model(rng, phys=2, named=True):
    if named and phys == 2 and rng.random() < 0.5:
        if rng.random() < 0.5:
            return {"name": "ising", "params": {"jz": round(rng.uniform(0.3, 1.5), 3), "hx": round(rng.uniform(0.2, 3), 3)}}
        return {"name": "heisenberg", "params": {"J": round(rng.uniform(0.3, 1.5), 3)}}
    m = {"kind": rng.choice(["random", "random", "zz"]), "seed": rng.randrange(10 ** 6),
         "J": round(rng.uniform(0.3, 1.2), 3), "g": round(rng.uniform(0.0, 1.0), 3), "phys": phys,
         "wrap": rng.choice(["tensor", "pauli"])}
    if rng.random() < 0.3:
        m["bobs"] = True
    return m


def rand_cfg(rng, nmax=3, Ds=(2,), chis=(4, 5, 6, 8), steps=(1, 2, 3), phys=(2, 2, 2, 3), dtypes=("float64",), nmin=2):
    p = rng.choice(phys)
    c = {"nx": rng.randint(nmin, nmax), "ny": rng.randint(nmin, nmax), "D": rng.choice(Ds), "chi": rng.choice(chis),
         "steps": rng.choice(steps), "phys": p, "dtype": rng.choice(dtypes),
         "projectors": rng.choice(["half-system", "half-system", "full-system"]),
         "svd_type": rng.choice(["rsvd", "rsvd", "full-rank"]),
         "update": rng.choice(["full", "full", "simple"]), "gauge": rng.random() < 0.6,
         "als_method": rng.choice(["cholesky", "cholesky", "pinv"]), "als_niter": rng.choice([5, 20])}
    c["model"] = rand_model(rng, p)
    return c


def rand_param_change(rng, c):
    m = c["model"]
    if m.get("name") == "ising":
        return ["params", {rng.choice(["jz", "hx"]): round(rng.uniform(0.2, 2.5), 3)}]
    if m.get("name") == "heisenberg":
        return ["params", {"J": round(rng.uniform(0.3, 1.5), 3)}]
    return ["params", {rng.choice(["J", "g"]): round(rng.uniform(0.2, 1.5), 3)}]
