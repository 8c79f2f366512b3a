"""T01: results do not depend on clocks, logging or display."""
import copy

from .. import ops as O
from .. import solo as S
from .. import work
from ..core import Violation, sig_of
from ..procs import Clock, Process

ID = "T01"
LEVEL = "exploration"
NOTE = "Seeded search over clock behaviour, log levels, scheduler variables and displays; results compared bit by bit."
PLAN = {"quick": 220, "thorough": 6000, "case_timeout": 300}
RULE = ("A case runs one random script (creation, renormalization, evolution of up to 22 steps, measurement, settings, "
        "checkpoints) once in a plain environment and once with hostile clocks (frozen, stepping backwards, jumping by up to "
        "years, wild values), any log level (also unknown or oddly written ones), batch-scheduler variables, progress bars on a "
        "terminal or not, narrow or ASCII terminals. The second run must not fail and every tensor after every operation and "
        "every measurement must be bit for bit the same. Non-trivial: the environments really differed.")
DISTINCT = "hash of (configuration, script, environment)"
REAL = ["all of acetn", "tqdm", "logging", "torch.save / torch.load (scratch directory)"]
STUB = ["clocks (time, perf_counter, monotonic, process_time, sleep)", "environment variables", "console"]
ASSUME = ["the console accepts what is written to it"]
LEVELS = ["DEBUG", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "Verbose", "", "10", "NOTSET", "WARN"]


def gen(rng, i, tier):
    c = O.rand_cfg(rng, nmax=2, nmin=1 if rng.random() < 0.2 else 2, chis=(3, 4, 5), steps=(1, 2))
    c["als_niter"] = 4
    if rng.random() < 0.4:
        c["update"] = "simple"
    ops = []
    for k in range(rng.randint(2, 5)):
        x = rng.random()
        if x < 0.45:
            ops.append(["evolve", 0.05, rng.choice([1, 2, 10, 11, 22]) if c["update"] == "simple" else rng.choice([1, 2, 2, 10])])
        elif x < 0.6:
            ops.append(["renorm"])
        elif x < 0.7:
            ops.append(["chi", rng.choice([2, 4, 6])])
        elif x < 0.78:
            ops.append(O.rand_param_change(rng, c))
        elif x < 0.88:
            ops.append(["save", "x.pt"])
            ops.append(["load", "x.pt"])
        else:
            ops.append(["measure"])
    ops.append(["measure"])
    env = {}
    if rng.random() < 0.7:
        env["ACETN_LOG_LEVEL"] = rng.choice(LEVELS)
    if rng.random() < 0.5:
        env["SLURM_JOB_ID"] = rng.choice(["1234", "", "x"])
        if rng.random() < 0.6:
            env["SLURM_JOB_NAME"] = rng.choice(["interactive", "run", "", "my-interactive-job"])
        if rng.random() < 0.6:
            env["SLURM_JOB_PARTITION"] = rng.choice(["interactive", "gpu", ""])
        if rng.random() < 0.3:
            env.update(SLURM_NTASKS="1", SLURM_PROCID="0", SLURM_LOCALID="0")
    for k, vs in (("COLUMNS", ["0", "7", "5000", "x"]), ("LINES", ["0", "1"]), ("TERM", ["dumb", "xterm"]), ("TZ", ["Asia/Tokyo"]),
                  ("LC_ALL", ["C", "tr_TR.UTF-8"]), ("NO_COLOR", ["1"])):
        if rng.random() < 0.2:
            env[k] = rng.choice(vs)
    return {"cfg": c, "ops": ops, "env": env, "clock": rng.choice(["frozen", "backwards", "jumpy", "wild", "steady", "wild", "frozen"]),
            "cseed": rng.randrange(1 << 30), "quiet": rng.random() < 0.4, "tty": rng.random() < 0.5, "oseed": rng.randrange(1 << 30),
            "state": rng.randrange(1 << 30) if rng.random() < 0.5 else None}


def run(case, out):
    c = case["cfg"]
    A = work.random_state(c, case["state"]) if case["state"] is not None else None
    runs = []
    for plain in (True, False):
        cc = dict(c, quiet=True if plain else case["quiet"])
        clock = Clock() if plain else Clock(mode=case["clock"], seed=case["cseed"])
        proc = Process("p", env=None if plain else case["env"], torch_seed=case["oseed"], clock=clock, tty=(not plain) and case["tty"])
        with O.scratch() as d:
            s = S.Solo(cc, case["ops"], case["oseed"], A, workdir=d, proc=proc)
            try:
                s.run()
            except Exception as e:
                if plain:
                    raise Violation("error", f"the plain run failed: {type(e).__name__}: {str(e)[:300]}")
                raise Violation("failed", f"with {describe(case)} operation {s.records[-1]['op'] if s.records else 'import'} failed: "
                                          f"{type(e).__name__}: {str(e)[:300]}")
        runs.append(s)
    clock = runs[1].proc.clock
    out.count("clock-" + case["clock"], clock.reads)
    out.count("environment", len(case["env"]))
    out.probe("clock-jumps", clock.jumps)
    for i, (a, b) in enumerate(zip(runs[0].records, runs[1].records)):
        p = work.diff(b["snap"], a["snap"])
        if p:
            raise Violation("differs", f"with {describe(case)} operation {i} {a['op']} gives other tensors: {p}")
        if a["op"][0] == "measure":
            p = work.diff_meas(b["value"], a["value"])
            if p:
                raise Violation("differs", f"with {describe(case)} operation {i} measures {p}")
    out.note(work.digest(runs[1].records[-1]["snap"]))
    out.steps += len(case["ops"])
    out.trivial = case["clock"] == "steady" and not case["env"] and case["quiet"] and not case["tty"]
    out.sig = sig_of(c, case["ops"], case["env"], case["clock"], case["cseed"])


def describe(case):
    return f"clock {case['clock']}, environment {case['env']}, progress bars {'off' if case['quiet'] else 'on'}, terminal {case['tty']}"


def shrinks(case):
    for k in list(case["env"]):
        c = copy.deepcopy(case)
        del c["env"][k]
        yield c
    for k, v in (("clock", "steady"), ("quiet", True), ("tty", False)):
        if case[k] != v:
            yield dict(copy.deepcopy(case), **{k: v})
