"""Simulated torch.distributed (gloo semantics) on the kernel.

The functions are installed on the real torch.distributed module while a run is
in progress. What they do was compared with real gloo (tools/conformance.py):
all_gather transfers logical contents and insists on equal shapes, broadcast
transfers raw memory, mismatched calls have no defined result.
"""
import math
import os

import torch
import torch.distributed as dist

from .kernel import SimError

DEFAULT_TIMEOUT = 1800.0


class Mismatch(Exception):
    """Ranks disagree about the collective they take part in: a hang or garbage in reality."""


def raw(t):
    """The memory a gloo broadcast of t reads and writes."""
    n = t.numel()
    avail = t.untyped_storage().nbytes() // t.element_size() - t.storage_offset()
    return torch.as_strided(t, (min(n, avail),), (1,), t.storage_offset())


class Group:
    def __init__(self, ranks, gen=0):
        self.ranks = list(ranks)
        self.calls = {r: 0 for r in ranks}
        self.ops = {}
        self.gone = {}                # rank -> number of calls made before leaving
        self.gen = gen

    def size(self):
        return len(self.ranks)

    def rank(self):
        return self.ranks.index(SimDist.active.proc().dist["rank"])


class Work:
    def __init__(self, sim, finish):
        self.sim, self.finish, self.done = sim, finish, False

    def wait(self, timeout=None):
        if not self.done:
            self.finish()
            self.done = True
        return True

    def is_completed(self):
        return self.done

    def is_success(self):
        return self.done

    def get_future(self):
        raise NotImplementedError("simulated futures")


class SimDist:
    active = None
    NAMES = ["init_process_group", "destroy_process_group", "is_initialized", "get_rank", "get_world_size",
             "get_backend", "broadcast", "all_gather", "all_gather_into_tensor", "all_reduce", "reduce", "gather",
             "scatter", "barrier", "broadcast_object_list", "all_gather_object", "gather_object", "new_group",
             "monitored_barrier", "send", "recv", "is_torchelastic_launched", "get_process_group_ranks",
             "reduce_scatter", "all_to_all", "isend", "irecv"]

    def __init__(self, kernel, world_size, cpu_count=64):
        self.k, self.ws = kernel, world_size
        self.waiting_init = {}          # generation -> {rank: proc}
        self.groups = {}
        self.init_count = {}
        self.log = []                   # (rank, op, shape, dtype) per collective
        self.kills = {}                 # (rank, nth collective) -> action
        self.cpu_count = cpu_count
        self.mismatch = None
        self.p2p = {}
        self.nops = {}
        self.events = {}                # op -> count
        self.errors = {}                # rank -> communication errors it was given

    # -- installation -------------------------------------------------------
    def __enter__(self):
        self.saved = {n: getattr(dist, n) for n in self.NAMES if hasattr(dist, n)}
        for n in self.saved:
            setattr(dist, n, getattr(self, n, None) or self._missing(n))
        self.saved_cpu = os.cpu_count
        os.cpu_count = lambda: self.cpu_count
        SimDist.active = self
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(dist, n, f)
        os.cpu_count = self.saved_cpu
        SimDist.active = None

    def _missing(self, n):
        def f(*a, **k):
            raise SimError(f"torch.distributed.{n} is not simulated")
        return f

    # -- helpers --------------------------------------------------------------
    def proc(self):
        if self.k.in_task():
            return self.k.current.proc
        return self.k._active_proc or _NOPROC

    def _state(self):
        return self.proc().dist

    def _group(self, group=None):
        if isinstance(group, Group):
            return group
        g = self._state().get("group")
        if g is None:
            raise ValueError("Default process group has not been initialized, please make sure to call init_process_group.")
        return g

    def leave(self, proc):
        """proc exited or destroyed its group: peers that still need it get an error."""
        g = proc.dist.get("group")
        if g is not None:
            r = proc.dist["rank"]
            g.gone[r] = g.calls[r]
            proc.dist["group"] = None
        proc.dist["exited"] = True

    # -- group life cycle -----------------------------------------------------
    def is_initialized(self):
        return self._state().get("group") is not None

    def init_process_group(self, backend=None, init_method=None, timeout=None, world_size=-1, rank=-1,
                           store=None, group_name="", **kw):
        st = self._state()
        if st.get("group") is not None:
            raise ValueError("trying to initialize the default process group twice!")
        env = os.environ
        rank = int(env["RANK"]) if rank is None or rank < 0 else rank
        world_size = int(env["WORLD_SIZE"]) if world_size is None or world_size < 0 else world_size
        gen = st.get("gen", 0)
        st["gen"] = gen + 1
        st["timeout"] = timeout.total_seconds() if timeout is not None else DEFAULT_TIMEOUT
        members = self.waiting_init.setdefault((gen, world_size), {})
        if rank in members:
            raise RuntimeError(f"rank {rank} joined twice")
        members[rank] = self.proc()
        self._count("init")
        self._maybe_fault(rank)
        if not self.k.block(lambda: len(members) == world_size, f"init_process_group gen {gen}", st["timeout"]):
            self._err(rank)
            raise RuntimeError("Timed out waiting for clients to join the process group")
        g = self.groups.setdefault((gen, world_size), Group(range(world_size), gen))
        st["group"], st["rank"] = g, rank

    def destroy_process_group(self, group=None):
        st = self._state()
        if isinstance(group, Group) and group is not st.get("group"):
            return
        g = st.get("group")
        assert g is not None, "Process group cannot be None"
        g.gone[st["rank"]] = g.calls[st["rank"]]
        st["group"] = None
        self._count("destroy")

    def new_group(self, ranks=None, **kw):
        g = self._group()
        ranks = list(g.ranks if ranks is None else ranks)
        sub = self._collective("new_group", None, tuple(ranks), lambda ps, r: None, need_all=True)
        return self.groups.setdefault(("sub", id(g), g.calls[self._state()["rank"]]), Group(ranks))

    def get_rank(self, group=None):
        g = self._group(group)
        return g.ranks.index(self._state()["rank"])

    def get_world_size(self, group=None):
        return len(self._group(group).ranks)

    def get_backend(self, group=None):
        self._group(group)
        return "gloo"

    def is_torchelastic_launched(self):
        return True

    def get_process_group_ranks(self, group=None):
        return list(self._group(group).ranks)

    # -- collectives ------------------------------------------------------------
    def _count(self, op):
        self.events[op] = self.events.get(op, 0) + 1

    def _err(self, rank):
        self.errors[rank] = self.errors.get(rank, 0) + 1
        self.k.count("peer-error")

    def _maybe_fault(self, rank):
        n = self.nops[rank] = self.nops.get(rank, 0) + 1
        act = self.kills.get((rank, n))
        if act is None:
            return
        self.k.count(act["kind"])
        if act["kind"] == "kill":
            self.proc().dead = True
            self.leave(self.proc())
            self.k.freeze_current()
        elif act["kind"] == "raise":
            self._err(rank)
            raise act["exc"]()
        elif act["kind"] == "stall":
            self.k.block(lambda: False, "stalled", act["seconds"])

    def _collective(self, op, group, sig, finish, payload=None, need=None, need_all=False, async_op=False):
        """One rank's part in the group's next collective.

        sig must be equal on all ranks; need(rank) gives the ranks whose part is
        required before this rank's part can complete.
        """
        g = self._group(group)
        st = self._state()
        me = st["rank"]
        if me not in g.ranks:
            return None
        self._maybe_fault(me)
        self.k.seam(op)
        g = self._group(group)
        idx = g.calls[me]
        g.calls[me] += 1
        self._count(op)
        self.log.append((me, op, sig))
        entry = g.ops.setdefault(idx, {"sig": {}, "data": {}, "done": set()})
        entry["sig"][me] = (op, sig)
        entry["data"][me] = payload
        for r, s in entry["sig"].items():
            if s != (op, sig):
                self.mismatch = f"collective {idx}: rank {r} {s}, rank {me} {(op, sig)}"
                raise Mismatch(self.mismatch)
        needed = list(g.ranks) if need is None else list(need)

        def lost():
            return [r for r in needed if r not in entry["data"] and r in g.gone and g.gone[r] <= idx]

        def complete():
            if not self.k.block(lambda: self.mismatch or lost() or all(r in entry["data"] for r in needed),
                                f"{op} #{idx} {sig}", st.get("timeout", DEFAULT_TIMEOUT)):
                self._err(me)
                raise RuntimeError("Timed out waiting 1800000ms for recv operation to complete")
            if self.mismatch:
                raise Mismatch(self.mismatch)
            if not all(r in entry["data"] for r in needed):
                self._err(me)
                raise RuntimeError("Connection closed by peer")
            finish(entry["data"], me)
            entry["done"].add(me)
            if len(entry["done"]) == len(g.ranks):
                g.ops.pop(idx, None)        # nothing of it is kept

        if async_op:
            return Work(self, complete)
        complete()
        return None

    @staticmethod
    def _sig(t):
        return (t.numel(), str(t.dtype))

    def broadcast(self, tensor, src=None, group=None, async_op=False, group_src=None):
        src = group_src if src is None else src
        g = self._group(group)
        if src not in g.ranks:
            raise RuntimeError(f"ProcessGroupGloo::broadcast: invalid root rank: {src}")
        me = self._state()["rank"]

        def finish(data, r):
            if r != src:
                with torch.no_grad():
                    raw(tensor).copy_(data[src][:raw(tensor).numel()])
        payload = raw(tensor).detach().clone() if me == src else True
        return self._collective("broadcast", group, (src,) + self._sig(tensor), finish, payload,
                                need=[src] if me != src else [], async_op=async_op)

    def all_gather(self, tensor_list, tensor, group=None, async_op=False):
        g = self._group(group)
        if len(tensor_list) != len(g.ranks):
            raise RuntimeError(f"ProcessGroupGloo::allgather: invalid output tensor list at index 0 "
                               f"(expected length {len(g.ranks)}, got {len(tensor_list)})")
        for o in tensor_list:
            if o.dtype != tensor.dtype:
                raise ValueError(f"Invalid usage of tensors with different dtypesFound {o.dtype} and  {tensor.dtype}")
            if o.shape != tensor.shape:
                raise RuntimeError(f"ProcessGroupGloo::allgather: invalid tensor size at index 0 "
                                   f"(expected {tuple(tensor.shape)}, got {tuple(o.shape)})")

        def finish(data, r):
            with torch.no_grad():
                for o, q in zip(tensor_list, g.ranks):
                    o.copy_(data[q].reshape(o.shape))
        return self._collective("all_gather", group, self._sig(tensor), finish,
                                tensor.detach().clone(memory_format=torch.contiguous_format), async_op=async_op)

    def all_gather_into_tensor(self, output, tensor, group=None, async_op=False):
        g = self._group(group)
        if output.numel() != tensor.numel() * len(g.ranks):
            raise RuntimeError("output tensor size must be equal to world_size times input tensor size")

        def finish(data, r):
            with torch.no_grad():
                output.copy_(torch.cat([data[q].reshape(-1) for q in g.ranks]).reshape(output.shape))
        return self._collective("all_gather_into_tensor", group, self._sig(tensor), finish,
                                tensor.detach().clone(memory_format=torch.contiguous_format), async_op=async_op)

    @staticmethod
    def _reduce_op(op, xs):
        name = str(op).split(".")[-1].upper() if op is not None else "SUM"
        x = torch.stack(xs)
        if "SUM" in name:
            return x.sum(0)
        if "AVG" in name:
            return x.mean(0)
        if "MAX" in name:
            return x.amax(0)
        if "MIN" in name:
            return x.amin(0)
        if "PRODUCT" in name:
            return x.prod(0)
        raise SimError(f"reduce op {name}")

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        g = self._group(group)

        def finish(data, r):
            with torch.no_grad():
                tensor.copy_(self._reduce_op(op, [data[q] for q in g.ranks]))
        return self._collective("all_reduce", group, self._sig(tensor) + (str(op),), finish,
                                tensor.detach().clone(), async_op=async_op)

    def reduce(self, tensor, dst=0, op=None, group=None, async_op=False):
        g = self._group(group)
        me = self._state()["rank"]

        def finish(data, r):
            if r == dst:
                with torch.no_grad():
                    tensor.copy_(self._reduce_op(op, [data[q] for q in g.ranks]))
        return self._collective("reduce", group, self._sig(tensor) + (dst, str(op)), finish,
                                tensor.detach().clone(), need=None if me == dst else [], async_op=async_op)

    def gather(self, tensor, gather_list=None, dst=0, group=None, async_op=False, **kw):
        g = self._group(group)
        me = self._state()["rank"]
        if me == dst and (gather_list is None or len(gather_list) != len(g.ranks)):
            raise ValueError("Argument ``gather_list`` must be specified on destination rank.")

        def finish(data, r):
            if r == dst:
                with torch.no_grad():
                    for o, q in zip(gather_list, g.ranks):
                        o.copy_(data[q].reshape(o.shape))
        return self._collective("gather", group, self._sig(tensor) + (dst,), finish,
                                tensor.detach().clone(), need=None if me == dst else [], async_op=async_op)

    def scatter(self, tensor, scatter_list=None, src=0, group=None, async_op=False, **kw):
        g = self._group(group)
        me = self._state()["rank"]

        def finish(data, r):
            with torch.no_grad():
                tensor.copy_(data[src][g.ranks.index(r)].reshape(tensor.shape))
        payload = [t.detach().clone() for t in scatter_list] if me == src else True
        return self._collective("scatter", group, self._sig(tensor) + (src,), finish, payload, need=[src],
                                async_op=async_op)

    def barrier(self, group=None, async_op=False, device_ids=None):
        return self._collective("barrier", group, (), lambda d, r: None, True, async_op=async_op)

    def monitored_barrier(self, group=None, timeout=None, wait_all_ranks=False):
        return self.barrier(group)

    def broadcast_object_list(self, object_list, src=0, group=None, device=None, **kw):
        import pickle
        me = self._state()["rank"]

        def finish(data, r):
            if r != src:
                object_list[:] = pickle.loads(data[src])
        return self._collective("broadcast_object", group, (src, len(object_list)), finish,
                                pickle.dumps(list(object_list)) if me == src else True,
                                need=[src] if me != src else [])

    def all_gather_object(self, object_list, obj, group=None):
        import pickle
        g = self._group(group)

        def finish(data, r):
            object_list[:] = [pickle.loads(data[q]) for q in g.ranks]
        return self._collective("all_gather_object", group, (), finish, pickle.dumps(obj))

    def gather_object(self, obj, object_gather_list=None, dst=0, group=None, **kw):
        import pickle
        g = self._group(group)
        me = self._state()["rank"]

        def finish(data, r):
            if r == dst:
                object_gather_list[:] = [pickle.loads(data[q]) for q in g.ranks]
        return self._collective("gather_object", group, (dst,), finish, pickle.dumps(obj),
                                need=None if me == dst else [])

    def _chan(self, a, b):
        return self.p2p.setdefault((a, b), [])

    def send(self, tensor, dst=None, group=None, tag=0, **kw):
        me = self._state()["rank"]
        self._group(group)
        self._maybe_fault(me)
        self.k.seam("send")
        self._count("send")
        self._chan(me, dst).append(tensor.detach().clone())

    def recv(self, tensor, src=None, group=None, tag=0, **kw):
        me = self._state()["rank"]
        g = self._group(group)
        self._maybe_fault(me)
        ch = self._chan(src, me)
        self.k.block(lambda: ch or src in g.gone, f"recv from {src}", DEFAULT_TIMEOUT)
        if not ch:
            raise RuntimeError("Connection closed by peer")
        with torch.no_grad():
            tensor.copy_(ch.pop(0).reshape(tensor.shape))
        return src


class _NoProc:
    dist = {}


_NOPROC = _NoProc()
