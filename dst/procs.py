"""Simulated operating-system processes: each has its own copy of the acetn
modules, environment, random generator, console and process-wide patches."""
import builtins
import importlib
import importlib.util
import io
import logging
import os
import random
import sys
import threading
import time as _time
import weakref

import numpy as np
import torch
import tqdm as tqdm_mod
import tqdm.std as tqdm_std
from tqdm import tqdm

from .kernel import SimLock

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "acetn"
_CODE = {}
_NULL = None


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles from source (never from a possibly stale .pyc), once per process tree."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _CODE:
            with open(path, "rb") as f:
                _CODE[path] = compile(f.read(), path, "exec", dont_inherit=True)
        return _CODE[path]


class _Finder:
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


if not any(getattr(f, "__name__", "") == "_Finder" for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder)
tqdm.monitor_interval = 0       # no real monitor thread


def _take(d, known=None, size=None):
    """Remove and return the package's entries of sys.modules or of the logger table. The
    table is searched only if something may have been added since its size was recorded."""
    if known is not None and len(d) == size and all(k in d for k in known):
        return {k: d.pop(k) for k in known}
    if known is None and PKG not in d:
        return {}
    out = {k: m for k, m in d.items() if k == PKG or k.startswith(PKG + ".")}
    for k in out:
        del d[k]
    return out


class Console(io.TextIOBase):
    def __init__(self, proc, name, tty=False, cap=400_000):
        self.proc, self.name_, self.buf, self.size, self.cap, self.tty = proc, name, [], 0, cap, tty
        self.writes = 0

    def writable(self):
        return True

    def isatty(self):
        return self.tty

    def fileno(self):               # only ever used to enable faulthandler
        global _NULL
        if _NULL is None:
            _NULL = os.open(os.devnull, os.O_RDWR)
        return _NULL

    @property
    def encoding(self):
        return "utf-8"

    def write(self, s):
        self.writes += 1
        if self.size < self.cap:
            self.buf.append(s)
            self.size += len(s)
        return len(s)

    def text(self):
        return "".join(self.buf)


class Env(dict):
    """Stands in for os.environ of one simulated process."""
    def copy(self):
        return dict(self)
    encodekey = encodevalue = staticmethod(os.fsencode)


class Clock:
    """A process clock: virtual time plus skew, steps and freezes."""

    def __init__(self, kernel=None, mode="steady", seed=0):
        self.kernel, self.mode, self.rng = kernel, mode, random.Random(seed)
        self.t = 1_700_000_000.0
        self.last = self.t
        self.reads = 0
        self.jumps = 0

    def read(self):
        self.reads += 1
        if self.mode == "frozen":
            return self.t
        base = self.kernel.now if self.kernel is not None else self.t + self.reads * 1e-3
        if self.mode == "steady":
            return base
        if self.mode == "jumpy":
            if self.rng.random() < 0.3:
                self.jumps += 1
                self.last = base + self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-3, 8)
            return self.last
        if self.mode == "backwards":
            self.t -= 10 ** self.rng.uniform(-6, 4)
            self.jumps += 1
            return self.t
        if self.mode == "wild":
            self.jumps += 1
            return self.rng.choice([0.0, 1e-9, -1e12, 1e12, 4e9, base])
        raise ValueError(self.mode)


_real_time = {n: getattr(_time, n) for n in
              ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns", "sleep")}
_real_environ = os.environ
_real_getpid = os.getpid
_real_print = builtins.print
_real_tqdm_write = tqdm_std.tqdm.__dict__["write"]


class Process:
    """One simulated process. Use activate()/deactivate() (or `with`) around its code."""

    def __init__(self, name="p0", env=None, torch_seed=0, clock=None, tty=False):
        self.name = name
        self.pid = 4000
        self.env = Env(_base_env())
        self.env.update(env or {})
        self.modules = {}
        self.loggers = {}
        self.stdout = Console(self, "stdout", tty)
        self.stderr = Console(self, "stderr", tty)
        self.print = _real_print
        self.tqdm_write = _real_tqdm_write
        self.tqdm_instances = weakref.WeakSet()
        self.clock = clock or Clock()
        g = torch.Generator()
        g.manual_seed(torch_seed)
        self.torch_rng = g.get_state()
        self.py_rng = random.Random(torch_seed).getstate()
        self.np_rng = np.random.RandomState(torch_seed & 0xFFFFFFFF).get_state()
        self.default_dtype = torch.float32
        self.dist = {}
        self.dead = False
        self.active = False
        self._saved = None

    # -- switching --------------------------------------------------------
    def activate(self):
        assert not self.active
        logs = logging.Logger.manager.loggerDict
        self._saved = (_take(sys.modules), _take(logs), os.environ, sys.stdout, sys.stderr, builtins.print,
                       tqdm_std.tqdm.__dict__["write"], tqdm_std.tqdm.__dict__.get("_instances"),
                       torch.get_rng_state(), random.getstate(), np.random.get_state(),
                       {n: getattr(_time, n) for n in _real_time}, tqdm_std.time, torch.get_default_dtype())
        sys.modules.update(self.modules)
        logs.update(self.loggers)
        self._sizes = len(sys.modules), len(logs)
        os.environ = self.env
        sys.stdout, sys.stderr = self.stdout, self.stderr
        builtins.print = self.print
        tqdm_std.tqdm.write = self.tqdm_write
        tqdm_std.tqdm._instances = self.tqdm_instances
        torch.set_rng_state(self.torch_rng)
        random.setstate(self.py_rng)
        np.random.set_state(self.np_rng)
        if torch.get_default_dtype() != self.default_dtype:
            torch.set_default_dtype(self.default_dtype)
        c = self.clock
        _time.time = _time.monotonic = _time.perf_counter = _time.process_time = c.read
        _time.time_ns = _time.monotonic_ns = _time.perf_counter_ns = lambda: int(c.read() * 1e9)
        _time.sleep = self._sleep
        tqdm_std.time = c.read
        os.getpid = lambda: self.pid
        self.active = True

    def deactivate(self):
        assert self.active
        self.modules = _take(sys.modules, self.modules, self._sizes[0])
        self.loggers = _take(logging.Logger.manager.loggerDict, self.loggers, self._sizes[1])
        self.print = builtins.print
        self.tqdm_write = tqdm_std.tqdm.__dict__["write"]
        self.tqdm_instances = tqdm_std.tqdm.__dict__.get("_instances")
        self.torch_rng = torch.get_rng_state()
        self.py_rng = random.getstate()
        self.np_rng = np.random.get_state()
        self.default_dtype = torch.get_default_dtype()
        (mods, logs, env, so, se, pr, tw, ti, trng, prng, nrng, times, tqt, ddt) = self._saved
        sys.modules.update(mods)
        logging.Logger.manager.loggerDict.update(logs)
        os.environ, sys.stdout, sys.stderr, builtins.print = env, so, se, pr
        os.getpid = _real_getpid
        tqdm_std.tqdm.write = tw
        if ti is not None:
            tqdm_std.tqdm._instances = ti
        torch.set_rng_state(trng)
        random.setstate(prng)
        np.random.set_state(nrng)
        for n, f in times.items():
            setattr(_time, n, f)
        tqdm_std.time = tqt
        if torch.get_default_dtype() != ddt:
            torch.set_default_dtype(ddt)
        self.active = False

    def __enter__(self):
        self.activate()
        return self

    def __exit__(self, *a):
        self.deactivate()

    def _sleep(self, s):
        k = self.clock.kernel
        if k is not None and k.in_task():
            k.block(lambda: False, "sleep", max(0.0, s))

    # -- code -------------------------------------------------------------
    def load(self):
        """Import this process's own copy of the package (process must be active)."""
        saved = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, lambda: SimLock(True)
        try:
            importlib.import_module(PKG)
            importlib.import_module(PKG + ".ipeps")
        finally:
            threading.Lock, threading.RLock = saved
        return self

    def mod(self, name):
        return importlib.import_module(PKG + "." + name)

    @property
    def Ipeps(self):
        return self.mod("ipeps").Ipeps

    def seed(self, s):
        torch.manual_seed(s)


def _base_env():
    keep = ("PATH", "HOME", "LANG", "TMPDIR", "PYTHONHASHSEED")
    return {k: v for k, v in _real_environ.items() if k in keep}
