"""Faults injected into torch calls of the running thread."""
import torch
from torch.overrides import TorchFunctionMode

_NAMES = {}


def name_of(func):
    n = _NAMES.get(func)
    if n is None:
        n = getattr(func, "__name__", str(func))
        _NAMES[func] = n
    return n


EXC = {
    "oom": lambda: torch.OutOfMemoryError("CUDA out of memory. (injected)") if hasattr(torch, "OutOfMemoryError") else MemoryError(),
    "alloc": lambda: RuntimeError("[enforce fail at alloc_cpu.cpp:114] . DefaultCPUAllocator: can't allocate memory: "
                                  "you tried to allocate 1 bytes. (injected)"),
    "memory": lambda: MemoryError("injected"),
    "linalg": lambda: torch._C._LinAlgError("linalg: The algorithm failed to converge (injected)"),
    "interrupt": lambda: KeyboardInterrupt("injected"),
    "io": lambda: OSError(5, "Input/output error (injected)"),
}
FACTORIES = ("linalg_svd", "svd", "linalg_qr", "qr", "linalg_eigh", "eigh", "linalg_cholesky", "cholesky", "linalg_pinv",
             "pinv", "linalg_solve", "solve", "linalg_solve_triangular", "solve_triangular", "matrix_exp", "linalg_matrix_exp",
             "linalg_cholesky_ex", "cholesky_ex", "linalg_svdvals", "linalg_eigvalsh", "linalg_lstsq", "lstsq")


def is_factorisation(n):
    return n in FACTORIES


class Counter(TorchFunctionMode):
    """Counts torch calls; raises at chosen ones. plan(n, name, nth_of_name) -> exception or None."""

    def __init__(self, plan=None, cap=None, on_call=None, post=None, select=None):
        super().__init__()
        self.plan, self.cap, self.on_call, self.post, self.select = plan, cap, on_call, post, select
        self.n = 0
        self.by_name = {}
        self.raised = []
        self.paused = False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if self.paused:
            return func(*args, **kwargs)
        name = name_of(func)
        if self.select is not None and not self.select(name):
            return func(*args, **kwargs)
        self.n += 1
        k = self.by_name[name] = self.by_name.get(name, 0) + 1
        if self.cap is not None and self.n > self.cap:
            raise Exceeded(self.n)
        if self.on_call is not None:
            self.on_call(self.n, name)
        if self.plan is not None:
            e = self.plan(self.n, name, k)
            if e is not None:
                self.raised.append((self.n, name))
                raise e
        r = func(*args, **kwargs)
        if self.post is not None:
            r = self.post(self.n, name, r)
        return r


class Exceeded(BaseException):
    """The operation budget is used up: unwinds everything."""


def at(n, kind):
    return lambda i, name, k: EXC[kind]() if i == n else None
