"""Standard-library seams: clock, threads and locks, files, sockets, stdin and stdout.

Every replacement falls through to the real function unless a scheduler is active and the calling thread is
one of its tasks.  Installed once per process, before sonolus is imported.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import queue
import select
import selectors
import shutil
import socket
import socketserver
import sys
import threading
import time

from . import kernel

raw = {}  # saved originals
FDS: dict[int, str] = {}  # simulated-file descriptors -> path


def sim():
    s = kernel.S
    if s is not None and s.in_task():
        return s
    return None


# ---------------------------------------------------------------------- clock
def _install_clock():
    def mk(name, get):
        real = getattr(time, name)
        raw["time." + name] = real

        def f():
            s = sim()
            if s is None:
                return real()
            s.tick(0.000011)
            return get(s)

        f.__name__ = name
        setattr(time, name, f)

    mk("time", lambda s: s.now)
    mk("monotonic", lambda s: s.mono)
    mk("perf_counter", lambda s: s.mono)
    mk("time_ns", lambda s: int(s.now * 1e9))
    mk("monotonic_ns", lambda s: int(s.mono * 1e9))
    mk("perf_counter_ns", lambda s: int(s.mono * 1e9))
    real_sleep = time.sleep

    def sleep(dt):
        s = sim()
        if s is None:
            return real_sleep(dt)
        s.sleep(dt)

    time.sleep = sleep
    threading._time = time.monotonic
    queue.time = time.monotonic


# ---------------------------------------------------------------------- threads
class SimLock:
    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = sim()
        if s is not None:
            s.point("lock")
        if self._held:
            if not blocking:
                return False
            if s is None:
                raise RuntimeError("real wait on a simulated lock")
            if not s.block(lambda: not self._held, None if timeout is None or timeout < 0 else timeout, "lock-wait"):
                return False
        self._held = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s = sim()
        if s is not None:
            s.point("unlock")

    release_lock = release

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _install_threads():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    threading._CRLock = None
    queue.SimpleQueue = queue._PySimpleQueue
    real_start, real_join, real_alive = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive

    def start(self):
        s = sim()
        if s is None:
            return real_start(self)
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")

        def body():
            ident = kernel.raw_ident()
            self._ident = ident
            threading._active[ident] = self
            self._started._flag = True
            try:
                self.run()
            finally:
                threading._active.pop(ident, None)

        n = sum(1 for t in s.tasks if t.system)
        self._sim_task = s.spawn(body, f"sys{n}:{getattr(self._target, '__name__', 'thread')}", system=True, daemon=self.daemon)
        s.event("thread", self._sim_task.name)
        s.point("thread-start")

    def join(self, timeout=None):
        s = sim()
        t = getattr(self, "_sim_task", None)
        if s is None or t is None:
            return real_join(self, timeout)
        s.block(lambda: t.done, timeout, "join")

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return real_alive(self)
        return not t.done

    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = start, join, is_alive


# ---------------------------------------------------------------------- files
class FileWorld:
    """Fault injection and containment for files under `root`."""

    def __init__(self, root: str):
        self.root = os.path.realpath(root)
        self.armed: list[dict] = []  # faults armed for the current command
        self.nw = 0  # mutating operations since arming
        self.nr = 0
        self.bytes_left = None  # disk space for system tasks, None = plenty
        self.escapes: list = []
        self.scan_seed = None
        self.on_write_op = []  # [(nth, fn)] harness actions placed inside a rebuild
        self.on_read_op = []
        self.hold = None
        self.fault_hits: list = []

    def inside(self, p: str):
        return p == self.root or p.startswith(self.root + "/")

    def arm(self, faults):
        self.armed = [dict(f) for f in faults]
        self.nw = self.nr = 0
        self.bytes_left = None
        for f in self.armed:
            if f["kind"] == "disk_full":
                self.bytes_left = f["bytes"]

    def disarm(self):
        self.armed = []
        self.bytes_left = None
        self.on_write_op = []
        self.on_read_op = []


W: FileWorld | None = None


def set_world(w):
    global W
    W = w


class ProcessDeath(BaseException):
    pass


def _abspath(p, dir_fd=None):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        if dir_fd is not None:
            base = FDS.get(dir_fd) or raw["readlink"](f"/proc/self/fd/{dir_fd}")
        else:
            base = os.getcwd()
        p = base + "/" + p
    return os.path.normpath(p)


def _sys_sim():
    """The scheduler, if a task of the system under test is running in a file world."""
    s = sim()
    if s is None or W is None or not s.cur.system:
        return None
    return s


def _err(kind, path):
    e = getattr(errno, kind)
    return OSError(e, os.strerror(e), path)


def _die(s, why):
    s.count("fault.process_death")
    s.event("death", why)
    s.finish({"end": "died", "why": why})


def mutate(s, op, path):
    """A mutating file operation is about to happen. Returns a fault dict that the caller must apply, or None."""
    w = W
    if not w.inside(path):
        w.escapes.append((op, path))
        s.event("escape", op, path)
        raise PermissionError(errno.EPERM, "outside the simulated disk", path)
    w.nw += 1
    s.event("w", op, path[len(w.root):])
    s.point("fs:" + op)
    for nth, fn in list(w.on_write_op):
        if nth == w.nw:
            w.on_write_op.remove((nth, fn))
            fn()
    for f in w.armed:
        if f.get("side", "w") != "w" or f.get("fired"):
            continue
        if f.get("nth") == w.nw or (f.get("op") and f["op"] == op and f.get("match", "") in path and _nth_match(f)):
            k = f["kind"]
            if k in ("death", "ctrlc"):
                if op == "write" and k == "death":
                    f["fired"] = True
                    return f
                f["fired"] = True
                w.fault_hits.append(k)
                if k == "death":
                    _die(s, f"at {op}")
                else:
                    s.count("fault.ctrl_c")
                    raise KeyboardInterrupt
            if k in ("EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR"):
                f["fired"] = True
                if op == "write" and f.get("frac", 0):
                    return f
                w.fault_hits.append(k)
                s.count(f"fault.{k}_on_{op}")
                raise _err(k, path)
            if k in ("short", "torn"):
                if op == "write":
                    f["fired"] = True
                    return f
    if w.bytes_left is not None and op in ("open_w", "mkdir", "rename", "mkstemp") and w.bytes_left <= 0:
        w.fault_hits.append("ENOSPC")
        s.count(f"fault.ENOSPC_on_{op}")
        raise _err("ENOSPC", path)
    return None


def _nth_match(f):
    f["seen"] = f.get("seen", 0) + 1
    return f["seen"] > f.get("skip", 0)


def observe(s, op, path):
    """A reading file operation is about to happen."""
    w = W
    s.point("fs:" + op)
    if not w.inside(path):
        return None
    w.nr += 1
    for nth, fn in list(w.on_read_op):
        if nth == w.nr:
            w.on_read_op.remove((nth, fn))
            fn()
    for f in w.armed:
        if f.get("side", "w") != "r" or f.get("fired"):
            continue
        if f.get("op") == op and f.get("match", "") in path and _nth_match(f):
            k = f["kind"]
            if k == "short":
                if op != "read":
                    continue
                f["hits"] = f.get("hits", 0) + 1
                f["fired"] = f["hits"] >= f.get("times", 30)
                return f
            f["fired"] = True
            w.fault_hits.append(k)
            s.event("fault", k, op, path[len(w.root):])
            if k == "vanish":
                s.count("fault.vanish_on_" + op)
                with __import__("contextlib").suppress(OSError):
                    raw["unlink"](path)
                return None
            s.count(f"fault.{k}_on_{op}")
            raise _err(k, path)
    return None


class SimRaw(io.FileIO):
    """A raw file whose reads and writes are scheduling and fault points."""

    def __init__(self, file, mode="r", closefd=True, opener=None, *, sim_path=None):
        super().__init__(file, mode, closefd=closefd, opener=opener)
        self._sim_path = sim_path
        FDS[self.fileno()] = sim_path

    def write(self, b):
        s = _sys_sim()
        if s is None:
            return super().write(b)
        w = W
        mv = memoryview(b).cast("B")
        f = mutate(s, "write", self._sim_path)
        n = len(mv)
        if f is not None:
            k = f["kind"]
            part = max(0, min(n, int(n * f.get("frac", 0.5))))
            if k == "death":
                if part:
                    super().write(mv[:part])
                w.fault_hits.append(k)
                s.count("fault.death_mid_write")
                _die(s, "mid write")
            if k == "short":
                part = max(1, min(n, part or 1))
                s.count("fault.short_write")
                w.fault_hits.append(k)
                return super().write(mv[:part])
            if part:
                super().write(mv[:part])
            w.fault_hits.append(k)
            s.count(f"fault.{'EIO' if k == 'torn' else k}_mid_write")
            raise _err("EIO" if k == "torn" else k, self._sim_path)
        if w.bytes_left is not None:
            if w.bytes_left < n:
                part = max(0, w.bytes_left)
                if part:
                    super().write(mv[:part])
                w.bytes_left = 0
                w.fault_hits.append("ENOSPC")
                s.count("fault.ENOSPC_mid_write")
                raise _err("ENOSPC", self._sim_path)
            w.bytes_left -= n
        if n > 1:
            # a write the kernel performs in two steps: readers may see the first half only
            cut = 1 + (s.steps * 7919 + n // 2) % (n - 1)
            super().write(mv[:cut])
            s.point("fs:write-mid")
            super().write(mv[cut:])
            return n
        return super().write(mv)

    def _pre_read(self, want):
        s = _sys_sim()
        if s is None:
            return want
        f = observe(s, "read", self._sim_path)
        if f is not None and f["kind"] == "short":
            s.count("fault.short_read")
            W.fault_hits.append("short")
            return 1 + (W.nr * 7919) % max(1, f.get("max", 64))
        return want

    def readinto(self, b):
        n = self._pre_read(len(b))
        if n >= len(b):
            return super().readinto(b)
        mv = memoryview(b).cast("B")
        return super().readinto(mv[:n])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        n = min(n, self._pre_read(n))
        return super().read(n)

    def readall(self):
        if _sys_sim() is None:
            return super().readall()
        out = []
        while True:
            b = self.read(65536)
            if not b:
                return b"".join(out)
            out.append(b)

    def truncate(self, size=None):
        s = _sys_sim()
        if s is not None:
            mutate(s, "truncate", self._sim_path)
        return super().truncate(size)

    def close(self):
        if not self.closed:
            FDS.pop(self.fileno(), None)
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = _sys_sim()
    ro = raw["open"]
    if s is None:
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = FDS.get(file)
        if path is None:
            return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        path = _abspath(file)
    writing = any(c in mode for c in "wax+")
    if not writing and (path is None or not W.inside(path)):
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if writing and path == "/dev/null":
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        if writing:
            mutate(s, "open_w", path)
        else:
            observe(s, "open_r", path)
    text = "b" not in mode
    rawmode = mode.replace("b", "").replace("t", "")
    r = SimRaw(file, rawmode, closefd=closefd, opener=opener, sim_path=path)
    s.point("fs:opened")
    try:
        line_buffering = False
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return r
        if buffering == 1:
            buffering = -1
            line_buffering = text
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(r, buffering)
        elif writing:
            buf = io.BufferedWriter(r, buffering)
        else:
            buf = io.BufferedReader(r, buffering)
        if not text:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    except BaseException:
        r.close()
        raise


def _install_files():
    raw["open"] = io.open
    raw["readlink"] = os.readlink
    io.open = sim_open
    builtins.open = sim_open
    shutil._USE_CP_SENDFILE = False
    shutil._HAS_FCOPYFILE = False

    def wrap1(name, op, mut=True):
        real = getattr(os, name)
        raw[name] = real

        def f(path, *a, **k):
            s = _sys_sim()
            if s is None or isinstance(path, int):
                return real(path, *a, **k)
            p = _abspath(path, k.get("dir_fd"))
            if p is None:
                return real(path, *a, **k)
            if mut:
                mutate(s, op, p)
            elif W.inside(p):
                observe(s, op, p)
            return real(path, *a, **k)

        f.__name__ = name
        setattr(os, name, f)
        for group in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real in group:
                group.add(f)

    wrap1("unlink", "unlink")
    wrap1("remove", "unlink")
    wrap1("rmdir", "rmdir")
    wrap1("mkdir", "mkdir")
    wrap1("truncate", "truncate")
    wrap1("chmod", "chmod")
    wrap1("utime", "utime")
    wrap1("stat", "stat", mut=False)
    wrap1("lstat", "stat", mut=False)

    def wrap2(name, op):
        real = getattr(os, name)
        raw[name] = real

        def f(src, dst, *a, **k):
            s = _sys_sim()
            if s is None:
                return real(src, dst, *a, **k)
            p1 = _abspath(src, k.get("src_dir_fd"))
            p2 = _abspath(dst, k.get("dst_dir_fd"))
            if name not in ("link", "symlink") and not W.inside(p1):
                mutate(s, op, p1)
            mutate(s, op, p2)
            return real(src, dst, *a, **k)

        f.__name__ = name
        setattr(os, name, f)
        if real in os.supports_dir_fd:
            os.supports_dir_fd.add(f)

    wrap2("rename", "rename")
    wrap2("replace", "rename")
    wrap2("link", "link")
    wrap2("symlink", "link")

    real_open = os.open
    raw["os_open"] = real_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        s = _sys_sim()
        if s is None:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        p = _abspath(path, dir_fd)
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if wr and p != "/dev/null":
            mutate(s, "open_w", p)
        fd = real_open(path, flags, mode, dir_fd=dir_fd)
        if W.inside(p):
            FDS[fd] = p
        return fd

    os.open = os_open
    os.supports_dir_fd.add(os_open)
    real_close = os.close

    def os_close(fd):
        FDS.pop(fd, None)
        return real_close(fd)

    os.close = os_close
    real_write = os.write

    def os_write(fd, data):
        s = _sys_sim()
        p = FDS.get(fd) if s is not None else None
        if p is None:
            return real_write(fd, data)
        f = mutate(s, "write", p)
        n = len(data)
        if f is not None:
            part = max(1, int(n * f.get("frac", 0.5))) if n else 0
            real_write(fd, bytes(data)[:part])
            if f["kind"] == "death":
                _die(s, "mid write")
            W.fault_hits.append(f["kind"])
            s.count("fault.partial_os_write")
            if f["kind"] == "short":
                return part
            raise _err("EIO" if f["kind"] == "torn" else f["kind"], p)
        if W.bytes_left is not None:
            if W.bytes_left < n:
                raise _err("ENOSPC", p)
            W.bytes_left -= n
        return real_write(fd, data)

    os.write = os_write

    real_listdir, real_scandir = os.listdir, os.scandir
    raw["listdir"], raw["scandir"] = real_listdir, real_scandir

    def order(names, path):
        """The order a directory enumeration happens to have: a function of the run's seed."""
        if W.scan_seed is None:
            return sorted(names)
        import hashlib

        return sorted(names, key=lambda n: hashlib.sha1(f"{W.scan_seed}/{path[len(W.root):]}/{n}".encode()).digest())

    def listdir(path="."):
        s = _sys_sim()
        if s is None:
            return real_listdir(path)
        p = FDS.get(path) if isinstance(path, int) else _abspath(path)
        if p is None or not W.inside(p):
            return real_listdir(path)
        observe(s, "listdir", p)
        return order(real_listdir(path), p)

    class ScanIter:
        def __init__(self, entries):
            self._it = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir(path="."):
        s = _sys_sim()
        if s is None:
            return real_scandir(path)
        p = FDS.get(path) if isinstance(path, int) else _abspath(path)
        if p is None or not W.inside(p):
            return real_scandir(path)
        observe(s, "listdir", p)
        with real_scandir(path) as it:
            ents = {e.name: e for e in it}
        return ScanIter([ents[n] for n in order(list(ents), p)])

    os.listdir, os.scandir = listdir, scandir
    os.supports_fd.update((listdir, scandir))


# ---------------------------------------------------------------------- sockets
class Pipe:
    def __init__(self, cap):
        self.cap, self.buf, self.eof, self.rst = cap, bytearray(), False, False


class Net:
    def __init__(self, cap=4096):
        self.listeners: dict[int, "SimSocket"] = {}
        self.cap = cap
        self.next_fd = 100_000
        self.next_port = 40_000
        self.origins: dict[tuple, object] = {}  # (host, port) -> fn(conn socket), spawned per connection

    def fd(self):
        self.next_fd += 1
        return self.next_fd


NET: Net | None = None


def set_net(n):
    global NET
    NET = n


class SimSocketIO(io.RawIOBase):
    def __init__(self, sock, mode):
        self._sock, self._mode = sock, mode

    def readable(self):
        return "r" in self._mode

    def writable(self):
        return "w" in self._mode

    def readinto(self, b):
        d = self._sock.recv(len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        return self._sock.send(b)

    def fileno(self):
        return self._sock.fileno()

    def close(self):
        if not self.closed:
            super().close()
            self._sock._decref_socketios()


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):  # noqa: A002
        self.family, self.type, self.proto = socket.AF_INET, socket.SOCK_STREAM, 0
        self._fd = NET.fd()
        self._timeout = None
        self._rx = self._tx = None
        self._backlog = None
        self._addr = ("0.0.0.0", 0)
        self._peer = None
        self._closed = False
        self._io_refs = 0
        self._want_close = False

    # --- server side
    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        self._addr = ("0.0.0.0", addr[1])

    def listen(self, n=5):
        if self._addr[1] in NET.listeners and not NET.listeners[self._addr[1]]._closed:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self._backlog = []
        self._backlog_max = n
        NET.listeners[self._addr[1]] = self

    def getsockname(self):
        return self._addr

    def getpeername(self):
        if self._peer is None:
            raise OSError(errno.ENOTCONN, "not connected")
        return self._peer

    def _check(self):
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def accept(self):
        self._check()
        s = sim()
        s.point("accept")
        if not self._backlog:
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            if not s.block(lambda: self._backlog or self._closed, self._timeout, "accept-wait"):
                raise TimeoutError("timed out")
        self._check()
        c = self._backlog.pop(0)
        return c, c._peer

    # --- client side
    def connect(self, addr):
        s = sim()
        s.point("connect")
        host, port = addr
        pipe_a, pipe_b = Pipe(NET.cap), Pipe(NET.cap)
        NET.next_port += 1
        me = ("127.0.0.1", NET.next_port)
        self._addr, self._peer = me, (host, port)
        other = SimSocket()
        other._addr, other._peer = (host, port), me
        self._rx, self._tx = pipe_a, pipe_b
        other._rx, other._tx = pipe_b, pipe_a
        fn = NET.origins.get((host, port))
        if fn is not None:
            s.spawn(lambda: fn(other), f"origin#{NET.next_port}")
            return
        lst = NET.listeners.get(port)
        if lst is None or lst._closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        lst._backlog.append(other)

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def fileno(self):
        return -1 if self._closed else self._fd

    def _readable(self):
        if self._backlog is not None:
            return bool(self._backlog)
        r = self._rx
        return r is None or bool(r.buf) or r.eof or r.rst or self._closed

    def _writable(self):
        t = self._tx
        return t is None or len(t.buf) < t.cap or t.rst or t.eof or self._closed

    def recv(self, n, flags=0):
        self._check()
        s = sim()
        s.point("recv")
        if not self._readable():
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            if not s.block(self._readable, self._timeout, "recv-wait"):
                raise TimeoutError("timed out")
        self._check()
        r = self._rx
        if r.rst:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        d = bytes(r.buf[:n])
        del r.buf[:n]
        return d

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        memoryview(b)[: len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        self._check()
        s = sim()
        s.point("send")
        if not self._writable():
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            if not s.block(self._writable, self._timeout, "send-wait"):
                raise TimeoutError("timed out")
        self._check()
        t = self._tx
        if t.rst:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if t.eof:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        mv = memoryview(data).cast("B")
        n = min(len(mv), t.cap - len(t.buf))
        t.buf += mv[:n]
        return n

    def sendall(self, data, flags=0):
        mv = memoryview(data).cast("B")
        while len(mv):
            n = self.send(mv)
            mv = mv[n:]

    def shutdown(self, how):
        if self._tx is None:
            raise OSError(errno.ENOTCONN, "not connected")
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self._tx.eof = True
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            self._rx.eof = True

    def _decref_socketios(self):
        self._io_refs -= 1
        if self._want_close and self._io_refs <= 0:
            self._real_close()

    def _real_close(self):
        if self._closed:
            return
        self._closed = True
        if self._tx is not None:
            self._tx.eof = True
        if self._rx is not None:
            # closing with unread data resets the connection, as TCP does
            if self._rx.buf:
                self._tx.rst = False
            self._rx.eof = True

    def close(self):
        self._want_close = True
        if self._io_refs <= 0:
            self._real_close()

    def reset(self):
        """Harness clients: abort the connection."""
        self._closed = True
        self._tx.rst = True
        self._rx.rst = True
        # the peer reads from our _tx and writes to our _rx

    def detach(self):
        self._closed = True
        return self._fd

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        r = "".join(c for c in mode if c in "rw") or "r"
        rawio = SimSocketIO(self, r)
        self._io_refs += 1
        if buffering is None or buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return rawio
        if r == "rw":
            b = io.BufferedRWPair(rawio, rawio, buffering)
        elif r == "r":
            b = io.BufferedReader(rawio, buffering)
        else:
            b = io.BufferedWriter(rawio, buffering)
        if "b" in mode:
            return b
        return io.TextIOWrapper(b, encoding, errors, newline)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimSelector:
    def __init__(self):
        self._m = {}

    def register(self, fileobj, events, data=None):
        sock = getattr(fileobj, "socket", fileobj)
        key = selectors.SelectorKey(fileobj, fileobj.fileno(), events, data)
        self._m[fileobj] = (key, sock)
        return key

    def unregister(self, fileobj):
        return self._m.pop(fileobj)[0]

    def modify(self, fileobj, events, data=None):
        self._m.pop(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return {k.fd: k for k, _ in self._m.values()}

    def get_key(self, f):
        return self._m[f][0]

    def _now(self):
        out = []
        for key, sock in self._m.values():
            ev = 0
            if key.events & selectors.EVENT_READ and sock._readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and sock._writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        s = sim()
        s.point("select")
        r = self._now()
        if r or (timeout is not None and timeout <= 0):
            return r
        s.block(lambda: bool(self._now()), timeout, "select-wait")
        return self._now()

    def close(self):
        self._m.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _install_sockets():
    real_socket = socket.socket
    raw["socket"] = real_socket

    class SocketFactory(real_socket):
        def __new__(cls, *a, **k):
            if NET is not None and sim() is not None:
                return SimSocket(*a, **k)
            return real_socket.__new__(real_socket, *a, **k)

    def mk(*a, **k):
        if NET is not None and sim() is not None:
            return SimSocket(*a, **k)
        return real_socket(*a, **k)

    socket.socket = mk
    for name, ret in (
        ("gethostname", lambda: "simhost"),
        ("getfqdn", lambda name="": name or "simhost"),
        ("gethostbyname", lambda h: "192.168.7.7"),
        ("getaddrinfo", lambda h, p, *a, **k: [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("192.168.7.7", p or 0))]),
    ):
        real = getattr(socket, name)

        def f(*a, _real=real, _ret=ret, **k):
            if sim() is not None:
                return _ret(*a, **k)
            return _real(*a, **k)

        setattr(socket, name, f)
    real_cc = socket.create_connection

    def create_connection(address, timeout=None, source_address=None, **k):
        if NET is None or sim() is None:
            return real_cc(address, timeout, source_address, **k)
        s = SimSocket()
        if timeout is not None and timeout is not socket._GLOBAL_DEFAULT_TIMEOUT:
            s.settimeout(timeout)
        s.connect(address)
        return s

    socket.create_connection = create_connection
    socketserver._ServerSelector = SimSelector
    for n in ("DefaultSelector", "PollSelector", "SelectSelector", "EpollSelector"):
        if hasattr(selectors, n):
            setattr(selectors, n, SimSelector)

    real_select = select.select

    def sim_select(r, w, x, timeout=None):
        s = sim()
        if s is None:
            return real_select(r, w, x, timeout)
        def ready():
            return [o for o in r if getattr(o, "socket", o)._readable()], [o for o in w if getattr(o, "socket", o)._writable()], []
        a = ready()
        if any(a) or timeout == 0:
            return a
        s.block(lambda: any(ready()), timeout, "select-wait")
        return ready()

    select.select = sim_select


# ---------------------------------------------------------------------- stdin / stdout
class SimOut(io.TextIOBase):
    """stdout or stderr of the simulated process."""

    def __init__(self, sink: list, name):
        self.sink, self.n = sink, name


    encoding = "utf-8"
    errors = "strict"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fd")

    def write(self, t):
        s = sim()
        if s is not None:
            s.point("stdout")
            self.sink.append((s.steps, s.cur.name, t))
        else:
            self.sink.append((0, "-", t))
        return len(t)

    def flush(self):
        pass


class Stdin:
    """The operator's keyboard."""

    def __init__(self):
        self.lines: list[str] = []
        self.eof = False
        self.waiting = 0  # input() calls in progress
        self.consumed = 0
        self.prompts = 0  # input() calls ever made

    def input(self, prompt=""):
        s = sim()
        self.prompts += 1
        self.waiting += 1
        try:
            s.block(lambda: self.lines or self.eof, None, "input")
        finally:
            self.waiting -= 1
        if self.lines:
            self.consumed += 1
            return self.lines.pop(0)
        raise EOFError

    def readline(self, *a):
        try:
            return self.input() + "\n"
        except EOFError:
            return ""

    def __iter__(self):
        return iter(self.readline, "")

    def isatty(self):
        return False


STDIN: Stdin | None = None


def set_stdin(x):
    global STDIN
    STDIN = x


def _install_stdio():
    real_input = builtins.input

    def sim_input(prompt=""):
        if STDIN is not None and sim() is not None:
            return STDIN.input(prompt)
        return real_input(prompt)

    builtins.input = sim_input


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    _install_clock()
    _install_threads()
    _install_files()
    _install_sockets()
    _install_stdio()
