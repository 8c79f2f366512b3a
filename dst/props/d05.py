"""D05: only rank 0 of a distributed run writes to the console."""
import copy
import re

import torch.distributed as dist

from .. import ops as O
from .. import solo as S
from .. import work
from ..cluster import Cluster, guarded
from ..core import Violation, sig_of

ID = "D05"
LEVEL = "exploration"
NOTE = ("Seeded search over rank counts, histories, display settings and schedules on the real code; every byte each rank "
        "writes is captured, and rank 0's messages are compared with those of a single-process run.")
PLAN = {"quick": 170, "thorough": 8000, "case_timeout": 300}
RULE = ("A case is a random configuration (progress bars on or off, terminal or pipe) and operation list; mode 'dist': run "
        "on 2-5 ranks under a random schedule (a third of them with a process group the script set up itself), no rank but 0 may write a byte (the script also prints on every rank), and "
        "rank 0's messages, numbers masked, are those of the same script in one process; mode 'single': one process with "
        "other launcher variables (RANK without WORLD_SIZE, WORLD_SIZE=1, ...) prints and computes exactly what it does "
        "without them. Non-trivial: rank 0 (or the single process) wrote at least one message.")
DISTINCT = "hash of (configuration, operations, ranks or environment, order in which ranks ran)"
REAL = ["all of acetn, one private module copy per rank", "tqdm", "logging"]
STUB = ["stdout and stderr of each rank", "torch.distributed (simdist)", "clocks", "environment"]
ASSUME = ["default log level (at DEBUG every rank reports its own timings)"]

ENVS = [{"RANK": "1"}, {"WORLD_SIZE": "4"}, {"RANK": "3", "WORLD_SIZE": "1"}, {"RANK": "0", "WORLD_SIZE": "1", "LOCAL_RANK": "0"},
        {"LOCAL_RANK": "2"}, {"OMPI_COMM_WORLD_RANK": "3", "OMPI_COMM_WORLD_SIZE": "4"}, {"SLURM_PROCID": "2", "SLURM_NTASKS": "4"},
        {"RANK": "2", "WORLD_SIZE": "1", "LOCAL_RANK": "2", "MASTER_ADDR": "127.0.0.1", "MASTER_PORT": "29500"},
        {"PMI_RANK": "1", "PMI_SIZE": "2"}, {"GROUP_RANK": "1", "LOCAL_WORLD_SIZE": "2"}]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2, nmin=1, chis=(4,), steps=(1, 2))
    c["quiet"] = rng.random() < 0.4
    evolve = c["nx"] > 1 and c["ny"] > 1
    ops = []
    for k in range(rng.randint(1, 4 if tier == "quick" else 8)):
        x = rng.random()
        if x < 0.25:
            ops.append(["renorm"])
        elif x < 0.5 and evolve:
            ops.append(["evolve", 0.05, rng.choice([0, 1, 2])])
        elif x < 0.65:
            ops.append(["measure"])
        elif x < 0.75:
            ops.append(["chi", rng.choice([3, 5])])
        elif x < 0.85:
            ops.append(O.rand_param_change(rng, c))
        elif x < 0.93:
            ops.append(["fork", f"o{k}"])
        else:
            ops.append(["copy", f"o{k}"])
    if rng.random() < 0.6:
        ops.append(["measure"])
    mode = rng.choice(["dist", "dist", "dist", "single"])
    case = {"mode": mode, "cfg": c, "ops": ops, "tty": rng.random() < 0.5, "ws": rng.choice([2, 3, 4, 5]),
            "sticky": rng.choice([0.0, 0.7]), "sseed": rng.randrange(1 << 30)}
    if mode == "single":
        case["env"] = dict(rng.choice(ENVS))
        case["ws"] = 1
    if rng.random() < 0.2:
        case["slurm"] = True
    if mode == "dist" and rng.random() < 0.35:
        case["own"] = True
    return case


def lines(text):
    """Messages with all numbers masked (they may differ between serial and simultaneous moves)."""
    out = []
    for l in re.split(r"[\r\n]+", text):
        l = re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", l)
        l = re.sub(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?|\bnan\b|\binf\b", "#", l).replace("-#", "#")
        l = re.sub(r"\s+", " ", l).strip()
        if l:
            out.append(l)
    return out


def script(d, ops):
    vals, snaps = [], []
    for op in [["create"]] + ops:
        v = d.do(op)
        if op[0] == "measure":
            vals.append(v)
            print("measured", sorted(v))
        print("done", op[0])
        if d.ip is not None:
            snaps.append(work.digest(work.snap(d.ip)))
    return vals, snaps


def solo(case, env, seed):
    s = S.Solo(case["cfg"], [], seed, env=env, create=False)
    s.proc.stdout.tty = s.proc.stderr.tty = case["tty"]
    with s.proc:
        s.proc.load()
        d = O.Driver(s.proc, case["cfg"])
        r = script(d, case["ops"])
        d.ip = None
        d.others.clear()
    return s.proc, r


def run(case, out):
    env = {"SLURM_JOB_ID": "1", "SLURM_JOBID": "1"} if case.get("slurm") else {}
    ref, rr = solo(case, env, case["sseed"])
    want = lines(ref.stdout.text())
    out.steps += len(case["ops"])
    if case["mode"] == "single":
        p, pr = solo(case, dict(env, **case["env"]), case["sseed"])
        for name in ("stdout", "stderr"):
            a, b = getattr(ref, name).text(), getattr(p, name).text()
            a, b = lines(a), lines(b)
            if name == "stderr":            # bars redraw as time passes
                a, b = kinds(a), kinds(b)
            if a != b:
                raise Violation("single-" + name, f"with {case['env']}: {first_diff(a, b)}")
        if pr != rr:
            raise Violation("single-results", f"results change with {case['env']}")
        out.trivial = not want
        out.sig = sig_of("single", case["env"], case["cfg"], case["ops"])
        out.note((want, rr))
        return
    cl = Cluster(case["ws"], case["seed"], case.get("choices"), [case["sseed"]] * case["ws"], sticky=case["sticky"],
                 env=env, tty=case["tty"])

    def body(r):
        if case.get("own"):
            dist.init_process_group(backend="gloo")
        r.driver = O.Driver(r.proc, case["cfg"])
        script(r.driver, case["ops"])
        if case.get("own"):
            dist.destroy_process_group()
    try:
        guarded(lambda: cl.run(body), "distributed run")
    finally:
        cl.finish(out)
    for r in cl.ranks:
        if r.error is not None:
            raise r.error
    for r in cl.ranks[1:]:
        for con in (r.proc.stdout, r.proc.stderr):
            t = con.text()
            if t:
                raise Violation("rank-writes", f"rank {r.rank} of {case['ws']} wrote to {con.name_}: {t.strip()[:200]!r}")
    r0 = cl.ranks[0].proc
    got = lines(r0.stdout.text())
    if got != want:
        raise Violation("rank0-messages", f"rank 0 of {case['ws']} differs from a single process: {first_diff(want, got)}")
    a, b = kinds(lines(ref.stderr.text())), kinds(lines(r0.stderr.text()))
    if a != b:
        raise Violation("rank0-bars", f"rank 0 of {case['ws']} differs from a single process on stderr: {first_diff(a, b)}")
    if a:
        out.probe("bars-shown")
    out.trivial = not want
    out.note(want)
    if case.get("own"):
        out.probe("own-group")
    out.sig = sig_of("dist", case["cfg"], case["ops"], cl.kernel.sig, case["tty"])


def kinds(ls):
    """The sequence of progress bars, whatever number of times each was redrawn."""
    out = []
    for l in ls:
        k = l.split(":")[0]
        if not out or out[-1] != k:
            out.append(k)
    return sorted(set(out))


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return f"line {i}: expected {x!r}, got {y!r}"
    return "equal"


def shrinks(case):
    for j in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][j]
        yield c
    if case["ws"] > 2:
        yield dict(copy.deepcopy(case), ws=2, choices=[])
