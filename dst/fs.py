"""The file-system seam: log of what a save does to a scratch directory, injected errors
and short writes, and the directory contents a crash at any moment would leave."""
import ctypes
import errno
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = os.path.join(HERE, "build", "fsshim.so")
SRC = os.path.join(HERE, "dst", "fsshim.c")
KINDS = ["", "open", "write", "fsync", "rename", "unlink", "ftruncate", "close", "read", "link", "symlink", "mkdir", "rmdir",
         "truncate", "copy", "mmap", "lock"]
CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int,
                      ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_long)
META = ("creat", "rename", "unlink", "link", "symlink", "mkdir", "rmdir")


def ensure_preloaded():
    """Re-execute this process with the shim preloaded (building it first if needed)."""
    if SO in os.environ.get("LD_PRELOAD", ""):
        return
    if not os.path.exists(SO) or os.path.getmtime(SO) < os.path.getmtime(SRC):
        os.makedirs(os.path.dirname(SO), exist_ok=True)
        tmp = f"{SO}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, SRC, "-ldl", "-lpthread"], check=True)
        os.replace(tmp, SO)
    env = dict(os.environ, LD_PRELOAD=SO)
    os.execve(sys.executable, [sys.executable, "-m", "dst.main"] + sys.argv[1:], env)


class Model:
    """Directory tree with file contents."""

    def __init__(self):
        self.entries = {}       # path -> ("f", ino) | ("l", target) | ("d",)
        self.data = {}          # ino -> bytearray

    def copy(self):
        m = Model()
        m.entries = dict(self.entries)
        m.data = {k: bytearray(v) for k, v in self.data.items()}
        return m

    def apply(self, op):
        k = op[0]
        if k == "creat":
            self.entries[op[1]] = ("f", op[2])
            self.data.setdefault(op[2], bytearray())
        elif k == "write":
            d = self.data.setdefault(op[1], bytearray())
            off, b = op[2], op[3]
            if len(d) < off:
                d.extend(b"\0" * (off - len(d)))
            d[off:off + len(b)] = b
        elif k == "trunc":
            d = self.data.setdefault(op[1], bytearray())
            n = op[2]
            if len(d) > n:
                del d[n:]
            else:
                d.extend(b"\0" * (n - len(d)))
        elif k == "rename":
            a, b = op[1], op[2]
            if a in self.entries:
                e = self.entries.pop(a)
                self.entries[b] = e
                if e[0] == "d":
                    for p in [p for p in self.entries if p.startswith(a + "/")]:
                        self.entries[b + p[len(a):]] = self.entries.pop(p)
        elif k == "unlink" or k == "rmdir":
            self.entries.pop(op[1], None)
        elif k == "link":
            if op[1] in self.entries:
                self.entries[op[2]] = self.entries[op[1]]
        elif k == "symlink":
            self.entries[op[2]] = ("l", op[1])
        elif k == "mkdir":
            self.entries[op[1]] = ("d",)

    def resolve(self, path, depth=0):
        e = self.entries.get(path)
        if e is not None and e[0] == "l" and depth < 10:
            t = e[1] if e[1].startswith("/") else os.path.normpath(os.path.join(os.path.dirname(path), e[1]))
            return self.resolve(t, depth + 1)
        return path

    def read(self, path):
        e = self.entries.get(self.resolve(path))
        if e is None or e[0] != "f":
            return None
        return bytes(self.data.get(e[1], b""))

    def tree(self):
        """path -> content, for comparison with the real directory."""
        return {p: (e if e[0] != "f" else ("f", bytes(self.data.get(e[1], b"")))) for p, e in self.entries.items()}

    def materialise(self, root, dest):
        """Write the image below dest (paths relative to root)."""
        for p in sorted(self.entries, key=lambda p: p.count("/")):
            e = self.entries[p]
            q = os.path.join(dest, os.path.relpath(p, root))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if e[0] == "d":
                os.makedirs(q, exist_ok=True)
            elif e[0] == "l":
                t = e[1]
                if t.startswith(root):
                    t = os.path.join(dest, os.path.relpath(t, root))
                os.symlink(t, q)
            else:
                with open(q, "wb") as f:
                    f.write(self.data.get(e[1], b""))


def real_tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ("d",)
            else:
                with open(p, "rb") as f:
                    out[p] = ("f", f.read())
    return out


class Recorder:
    """While active: every file-system call below root passes through on_pre (which may
    return -errno, or a shorter length for a write) and is logged."""

    lib = None

    def __init__(self, root, on_pre=None):
        self.root, self.on_pre = root, on_pre
        self.start_model = Model()
        n = 0
        for p, e in sorted(real_tree(root).items()):
            if e[0] == "f":
                n += 1
                self.start_model.entries[p] = ("f", n)
                self.start_model.data[n] = bytearray(e[1])
            else:
                self.start_model.entries[p] = e
        self.model = self.start_model.copy()
        self.next_ino = n + 1
        self.fds = {}               # fd -> (ino, path, flags) | ("dir", path)
        self.log = []
        self.calls = []             # (kind, normalised path, length) of every call that could fail
        self.unmodelled = False
        self.error = None
        self.names = {}
        if Recorder.lib is None:
            Recorder.lib = ctypes.CDLL(SO)
            Recorder.lib.fsshim_set.argtypes = [CB, ctypes.c_char_p, ctypes.c_int]
        self._cb = CB(self._call)

    def norm(self, path):
        """Names of temporary files may be random: replace them by their order of appearance."""
        if path is None:
            return None
        p = os.path.relpath(path, self.root)
        if path in self.start_model.entries:
            return p
        return self.names.setdefault(p, f"new{len(self.names)}")

    def __enter__(self):
        Recorder.lib.fsshim_set(self._cb, self.root.encode(), 1)
        return self

    def __exit__(self, *a):
        Recorder.lib.fsshim_set(self._cb, None, 0)

    def add(self, op):
        self.log.append(op)
        self.model.apply(op)

    def _real(self, path):
        d = os.path.realpath(os.path.dirname(path))
        return os.path.join(d, os.path.basename(path))

    def _call(self, phase, kind, p, p2, fd, a, b, buf, n):
        try:
            kind = KINDS[kind]
            p = p.decode() if p else None
            p2 = p2.decode() if p2 else None
            if phase == 0:
                name = p
                if name is None and fd in self.fds:
                    name = self.fds[fd][1]
                wr = kind in ("write", "fsync", "rename", "unlink", "ftruncate", "truncate", "link", "symlink", "mkdir", "rmdir") \
                    or (kind == "open" and (a & 3) != os.O_RDONLY)
                if kind == "close":
                    wr = fd in self.fds and self.fds[fd][0] != "dir" and (self.fds[fd][2] & 3) != os.O_RDONLY
                self.calls.append((kind, wr, self.norm(name), a if kind in ("write", "read") else 0))
                if self.on_pre is not None:
                    r = self.on_pre(len(self.calls) - 1, kind, wr, name, a)
                    return r or 0
                return 0
            self._post(kind, p, p2, fd, a, b, buf, n)
        except BaseException as e:      # noqa: B902 - must not escape into C
            self.error = self.error or e
            return -errno.EIO if phase == 0 else 0
        return 0

    def _post(self, kind, p, p2, fd, a, b, buf, n):
        m = self.model
        if kind == "open":
            if fd < 0:
                return
            path = os.path.realpath(p)
            if os.path.isdir(path):
                self.fds[fd] = ("dir", path, a)
                return
            e = m.entries.get(path)
            if e is None or e[0] != "f":
                ino = self.next_ino
                self.next_ino += 1
                self.add(("creat", path, ino))
            else:
                ino = e[1]
                if a & os.O_TRUNC and (a & 3) != os.O_RDONLY:
                    self.add(("trunc", ino, 0))
            self.fds[fd] = (ino, path, a)
        elif kind == "write":
            if n > 0 and fd in self.fds:
                self.add(("write", self.fds[fd][0], b, ctypes.string_at(buf, n)))
        elif kind == "fsync":
            if a == 0 and fd in self.fds:
                f = self.fds[fd]
                self.add(("syncdir", f[1]) if f[0] == "dir" else ("fsync", f[0]))
        elif kind == "ftruncate":
            if b == 0 and fd in self.fds:
                self.add(("trunc", self.fds[fd][0], a))
        elif kind == "truncate":
            e = m.entries.get(os.path.realpath(p))
            if b == 0 and e:
                self.add(("trunc", e[1], a))
        elif kind == "rename":
            if a == 0:
                self.add(("rename", self._real(p), self._real(p2)))
        elif kind in ("unlink", "rmdir", "mkdir"):
            if a == 0:
                self.add((kind, self._real(p)))
        elif kind == "link":
            if a == 0:
                self.add(("link", self._real(p), self._real(p2)))
        elif kind == "symlink":
            if a == 0:
                self.add(("symlink", p, self._real(p2)))
        elif kind == "close":
            self.fds.pop(fd, None)
        elif kind == "mmap":
            self.unmodelled = True

    def consistent(self):
        """The model reproduces what is really on disk."""
        if self.error is not None:
            raise self.error
        return not self.unmodelled and self.model.tree() == real_tree(self.root)

    # -- crash images ----------------------------------------------------------
    def process_crashes(self, rng, tears=2):
        """Directory after the process dies between any two calls or inside a write."""
        m = self.start_model.copy()
        yield "before the first call", m
        for i, op in enumerate(self.log):
            if op[0] == "write":
                n = len(op[3])
                for cut in sorted({rng.randrange(1, n) for _ in range(tears)} if n > 1 else ()):
                    t = m.copy()
                    t.apply(("write", op[1], op[2], op[3][:cut]))
                    yield f"after {cut} of {n} bytes of write {i}", t
            m.apply(op)
            yield f"after call {i} ({op[0]})", m

    def machine_crash(self, rng, k):
        """Directory after power fails once the first k calls were made: names up to some
        point, and of data that was not forced to disk an arbitrary, possibly torn, part."""
        log = self.log[:k]
        metas = [i for i, op in enumerate(log) if op[0] in META]
        low = max([i for i, op in enumerate(log) if op[0] == "syncdir"], default=-1)
        must = [i for i in metas if i < low]
        cut = rng.randint(len(must), len(metas)) if rng.random() < 0.7 else len(metas)
        keep = set(metas[:cut])
        synced = {}
        for i, op in enumerate(log):
            if op[0] == "fsync":
                synced[op[1]] = i
        style = rng.choice(["none", "all", "random", "tail", "torn"])
        m = self.start_model.copy()
        lost = {}
        for i, op in enumerate(log):
            if op[0] in META:
                if i in keep:
                    m.apply(op)
                elif op[0] == "creat":
                    m.data.setdefault(op[2], bytearray())
            elif op[0] in ("write", "trunc"):
                if i < synced.get(op[1], -1):
                    m.apply(op)
                    continue
                dead = lost.get(op[1], False)
                if style == "none":
                    continue
                if style == "tail":
                    if dead or rng.random() < 0.3:
                        lost[op[1]] = True
                        continue
                if style == "random" and rng.random() < 0.4:
                    continue
                if style == "torn" and op[0] == "write" and rng.random() < 0.5:
                    b = op[3]
                    c = rng.randrange(len(b) + 1)
                    fill = rng.choice([b"", b"\0" * (len(b) - c)])
                    op = ("write", op[1], op[2], b[:c] + fill)
                m.apply(op)
        return f"machine crash after {k} calls (names {cut}/{len(metas)}, unsynced data: {style})", m
