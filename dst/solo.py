"""Single-process runs (no kernel): the reference side of most comparisons."""
from . import ops as O
from . import work
from .procs import Clock, Process


class Solo:
    """A simulated process running one user script in the calling thread."""

    def __init__(self, c, ops, seed=0, A=None, workdir=None, env=None, clock=None, patch=None, create=True, snaps=True,
                 proc=None):
        self.c, self.ops, self.A, self.workdir = c, ops, A, workdir
        self.proc = proc or Process("solo", env=env, torch_seed=seed, clock=clock or Clock())
        self.records = []
        self.driver = None
        self.patch, self.create_first, self.snaps = patch, create, snaps

    def run(self, keep=False):
        with self.proc:
            self.proc.load()
            if self.patch:
                self.patch(self.proc)
            self.driver = d = O.Driver(self.proc, self.c, self.A, self.workdir)
            for op in ([["create"]] if self.create_first else []) + self.ops:
                rec = {"op": op, "snap": None, "value": None, "exc": None}
                self.records.append(rec)
                rec["value"] = d.do(op)
                if self.snaps and d.ip is not None:
                    rec["snap"] = work.snap(d.ip)
            if not keep:
                d.ip = None
                d.others.clear()
        return self.records


def jacobi(proc):
    """Make the serial moves of a process simultaneous in pairs: both members of a pair
    (left, right) or (up, down) see the boundary as it was before the first of them.
    proc.jacobi_calls counts the moves seen."""
    M = proc.mod("renormalization.directional_mover").DirectionalMover
    import torch
    proc.jacobi_calls = 0
    pending = {}

    def wrap(name, axis):
        orig = getattr(M, name)

        def move(self, ip, idx):
            proc.jacobi_calls += 1
            before = work.snap(ip)
            if axis not in pending:
                orig(self, ip, idx)
                pending[axis] = (work.snap(ip), before)
                _put(ip, before)
            else:
                first, start = pending.pop(axis)
                assert work.diff(before, start) is None
                orig(self, ip, idx)
                second = work.snap(ip)
                _put(ip, _merge(start, first, second))
        return move

    for n, a in (("left_move", "x"), ("right_move", "x"), ("up_move", "y"), ("down_move", "y")):
        setattr(M, n, wrap(n, a))


def _put(ip, s):
    for site, (A, C, E) in s.items():
        ip[site]["C"] = C
        ip[site]["E"] = E


def _merge(start, first, second):
    out = {}
    for site in start:
        A, C0, E0 = start[site]
        pick = []
        for i in (1, 2):
            row = []
            for t0, t1, t2 in zip(start[site][i], first[site][i], second[site][i]):
                ch1 = t1.shape != t0.shape or not (t1 == t0).all()
                row.append(t1 if ch1 else t2)
            pick.append(row)
        out[site] = (A, pick[0], pick[1])
    return out
