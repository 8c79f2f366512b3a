"""Compares simdist with real gloo: the same small scripts run on real processes over the loopback
interface and on simulated ranks; the outcome (values, or kind of error) of every rank must be equal.
Not a check of ace-tn and not part of any verdict: it supports the assumption named in D01-D05."""
import datetime
import os
import socket
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import torch
import torch.distributed as dist
import torch.multiprocessing as mp


def init(ws=None):
    dist.init_process_group(backend="gloo", timeout=datetime.timedelta(seconds=20))


def base(rank, ws, shape=(3, 4)):
    return torch.arange(float(torch.Size(shape).numel())).reshape(shape) + 100 * rank


# ---- scripts: (rank, ws) -> JSON-able outcome ----------------------------------------------
def s_before(rank, ws):
    return [dist.is_initialized(), outcome(dist.get_rank), outcome(dist.get_world_size), outcome(lambda: dist.broadcast(torch.zeros(2), 0))]


def s_life(rank, ws):
    init()
    a = [dist.is_initialized(), dist.get_rank(), dist.get_world_size(), dist.get_backend()]
    a.append(outcome(init))
    dist.destroy_process_group()
    a += [dist.is_initialized(), outcome(dist.destroy_process_group)]
    return a


def s_explicit(rank, ws):
    dist.init_process_group(backend="gloo", rank=rank, world_size=ws)
    a = [dist.get_rank(), dist.get_world_size()]
    dist.destroy_process_group()
    return a


def s_broadcast(rank, ws):
    init()
    t = base(rank, ws)
    dist.broadcast(t, src=ws - 1)
    u = torch.full((), float(rank))
    dist.broadcast(u, src=0)
    v = base(rank, ws).to(torch.float32)
    dist.broadcast(v, src=0)
    z = torch.complex(base(rank, ws), -base(rank, ws))
    o = outcome(lambda: dist.broadcast(z, src=0))
    dist.destroy_process_group()
    return [t.tolist(), float(u), v.tolist(), o, z.real.tolist(), z.imag.tolist()]


def s_broadcast_strided(rank, ws):
    init()
    t = base(rank, ws).t() if rank == 0 else base(rank, ws, (4, 3))
    o = outcome(lambda: dist.broadcast(t, src=0))
    dist.destroy_process_group()
    return [o, t.tolist()]


def s_broadcast_slice(rank, ws):
    init()
    b = base(rank, ws, (4, 6))
    t = b[1:3]
    o = outcome(lambda: dist.broadcast(t, src=0))
    dist.destroy_process_group()
    return [o, b.tolist()]


def s_gather(rank, ws):
    init()
    t = base(rank, ws)
    l = [torch.empty_like(t) for _ in range(ws)]
    dist.all_gather(l, t)
    s = torch.tensor([rank + 1, 7 * rank])
    k = [torch.empty_like(s) for _ in range(ws)]
    dist.all_gather(k, s)
    dist.destroy_process_group()
    return [[x.tolist() for x in l], [x.tolist() for x in k]]


def s_gather_strided(rank, ws):
    init()
    t = base(rank, ws).t()
    l = [torch.zeros(4, 3, dtype=t.dtype) for _ in range(ws)]
    dist.all_gather(l, t)
    dist.destroy_process_group()
    return [x.tolist() for x in l]


def s_gather_bad(rank, ws):
    init()
    t = base(rank, ws)
    a = [outcome(lambda: dist.all_gather([torch.empty_like(t)] * (ws + 1), t)),
         outcome(lambda: dist.all_gather([torch.empty(2, 2) for _ in range(ws)], t)),
         outcome(lambda: dist.all_gather([torch.empty_like(t, dtype=torch.float64) for _ in range(ws)], t))]
    dist.barrier()
    dist.destroy_process_group()
    return a


def s_reduce(rank, ws):
    init()
    out = []
    for op in (dist.ReduceOp.SUM, dist.ReduceOp.MAX, dist.ReduceOp.MIN):
        t = base(rank, ws)
        dist.all_reduce(t, op=op)
        out.append(t.tolist())
    dist.destroy_process_group()
    return out


def s_objects(rank, ws):
    init()
    l = [None] * ws
    dist.all_gather_object(l, {"rank": rank, "x": [rank] * rank})
    b = [("r", 1), None] if rank == 0 else [None, None]
    dist.broadcast_object_list(b, src=0)
    dist.destroy_process_group()
    return [l, b]


def s_leaver(rank, ws):
    """The last rank leaves; the others need it."""
    init()
    t = base(rank, ws)
    dist.broadcast(t, src=0)
    if rank == ws - 1:
        return ["left", t.tolist()]
    l = [torch.empty_like(t) for _ in range(ws)]
    return [outcome(lambda: dist.all_gather(l, t)), "still there"]


def s_raiser(rank, ws):
    """The root raises before its broadcast."""
    init()
    if rank == 0:
        raise KeyError("root")
    return outcome(lambda: dist.broadcast(base(rank, ws), src=0))


def s_two_groups(rank, ws):
    """The default group destroyed and set up again."""
    out = []
    for k in range(2):
        init()
        t = base(rank, ws) + k
        dist.broadcast(t, src=0)
        out.append(t.tolist())
        dist.destroy_process_group()
    return out


SCRIPTS = [v for k, v in sorted(globals().items()) if k.startswith("s_")]


def outcome(f):
    try:
        f()
        return "ok"
    except (RuntimeError, ValueError, AssertionError) as e:
        return "error " + ("connection" if isinstance(e, RuntimeError) and any(
            w in str(e).lower() for w in ("connect", "closed", "reset", "peer", "broken pipe", "timed out")) else type(e).__name__)


def real_rank(rank, ws, name, port, d):
    os.environ.update(RANK=str(rank), WORLD_SIZE=str(ws), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), LOCAL_RANK=str(rank))
    torch.set_num_threads(1)
    try:
        r = repr(globals()[name](rank, ws))
    except Exception as e:
        r = "raised " + type(e).__name__
    open(os.path.join(d, str(rank)), "w").write(r)
    if name != "s_leaver" and name != "s_raiser" and dist.is_initialized():
        dist.destroy_process_group()
    os._exit(0)


def real(name, ws):
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    with tempfile.TemporaryDirectory(prefix="conf-") as d:
        ps = [mp.get_context("spawn").Process(target=real_rank, args=(r, ws, name, port, d)) for r in range(ws)]
        for p in ps:
            p.start()
        for p in ps:
            p.join(90)
            if p.is_alive():
                p.terminate()
        return [open(os.path.join(d, str(r))).read() if os.path.exists(os.path.join(d, str(r))) else "nothing" for r in range(ws)]


def simulated(name, ws, seed):
    from dst.cluster import Cluster
    cl = Cluster(ws, seed)
    got = {}

    def body(r):
        try:
            got[r.rank] = repr(globals()[name](r.rank, ws))
        except Exception as e:
            got[r.rank] = "raised " + type(e).__name__
    cl.run(body)
    return [got.get(r, "nothing") for r in range(ws)]


def main():
    bad = 0
    for f in SCRIPTS:
        for ws in (2, 3):
            want = real(f.__name__, ws)
            sims = {tuple(simulated(f.__name__, ws, s)) for s in range(20)}
            ok = sims == {tuple(want)}
            bad += not ok
            print(("same      " if ok else "DIFFERENT ") + f"{f.__name__} on {ws} ranks")
            if not ok:
                print("   gloo:   ", want)
                for s in sorted(sims):
                    print("   simdist:", list(s))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
