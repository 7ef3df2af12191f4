"""Server processes with a chosen hash seed that fork one child per request: new interpreters, cheaply.

A request names a function "module:function" and its arguments; it runs in a forked child of the server and
its pickled result comes back.  Address space randomisation is off (see run.py), so a request is repeatable.
"""

from __future__ import annotations

import os
import pickle
import struct
import subprocess
import sys
import traceback


def _read(f, n):
    b = b""
    while len(b) < n:
        d = f.read(n - len(b))
        if not d:
            raise EOFError
        b += d
    return b


def recv(f):
    (n,) = struct.unpack("<Q", _read(f, 8))
    return pickle.loads(_read(f, n))


def send(f, o):
    b = pickle.dumps(o)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


class Zygote:
    def __init__(self, ctx, hashseed, setup="simlib.dev.world:setup"):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", SIM_CHILD="1")
        code = ("import sys; sys.path.insert(0, sys.argv[1]); from simlib import zygote; zygote.serve(sys.argv[2], sys.argv[3], sys.argv[4])")
        self.p = subprocess.Popen([sys.executable, "-c", code, ctx["verif"], ctx["tree"], ctx["root"], setup], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd="/")

    def call(self, fn, *args, **kw):
        send(self.p.stdin, (fn, args, kw))
        ok, r = recv(self.p.stdout)
        if not ok:
            raise RuntimeError(f"zygote: {r}")
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def _resolve(name):
    import importlib

    m, f = name.split(":")
    return getattr(importlib.import_module(m), f)


def serve(tree, root, setup):
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    dn = os.open("/dev/null", os.O_RDONLY)
    os.dup2(dn, 0)
    from . import boot

    boot.install(tree)
    _resolve(setup)({"root": root, "tree": tree})
    from .dev import world

    while True:
        try:
            fn, args, kw = recv(inp)
        except EOFError:
            os._exit(0)
        try:
            r, why = world._child(lambda: ("ok", _resolve(fn)(*args, **kw)), kw.pop("_cpu", 120))
            if r is None:
                res = (False, why)
            elif isinstance(r, dict):
                res = (False, r.get("harness_error"))
            else:
                res = (True, r[1])
        except BaseException:  # noqa: BLE001
            res = (False, traceback.format_exc())
        send(out, res)


_pool: dict = {}


def get(ctx, hashseed, setup="simlib.dev.world:setup") -> Zygote:
    """One per (worker process, hash seed)."""
    k = (os.getpid(), hashseed, setup)
    z = _pool.get(k)
    if z is None or z.p.poll() is not None:
        z = _pool[k] = Zygote(ctx, hashseed, setup)
    return z
