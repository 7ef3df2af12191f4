"""One build of one project under chosen circumstances that must not matter (D07) or after an aborted one (C01)."""

from __future__ import annotations

import gc
import hashlib
import os
import random
import shutil
import sys

from . import seams, world


def perturb(seed):
    """Moves later allocations around."""
    if not seed:
        return None
    r = random.Random(seed)
    keep = []
    for _ in range(r.randrange(20_000)):
        o = bytearray(r.randrange(1, 600)) if r.random() < 0.5 else [None] * r.randrange(40)
        if r.random() < 0.5:
            keep.append(o)
    for _ in range(r.randrange(3000)):
        keep.append(type(f"C{len(keep)}", (), {}) if r.random() < 0.02 else {str(len(keep)): 1})
    return keep


def fill(root, files, clean=True):
    if clean:
        shutil.rmtree(root, ignore_errors=True)
    os.makedirs(f"{root}/{world.PROJ}", exist_ok=True)
    ed = world.Editor(f"{root}/{world.PROJ}")
    ed.sync(files, 1_700_000_000.0 - 5000)
    return ed


def one(root, files, spec):
    st = {"idx": 0, "model": {"name": "?"}, "files": files, "edit_clock": 0, "now": spec.get("now", 1_700_000_000.0), "mono": 1000.0, "snap": None}
    p = world.Proc({"steps": [], "sched": spec.get("sched") or {"mode": "rand", "p": 0.0, "seed": 1}, "seed": 1, "scan_seed": spec.get("scan_seed"),
                    "final_quit": True, "oracle": True, "module": spec.get("module", "game"), "prior": spec.get("prior"), "gc_every": spec.get("gc")}, st, root)
    keep = perturb(spec.get("alloc"))
    end = p.run({"cmd": spec["cmd"], "args": spec["args"], "faults": spec.get("faults")})
    del keep
    return {"end": end, "out": "".join(t for *_, t in p.out)[-3000:], "err": "".join(t if isinstance(t, str) else t[2] for t in p.err)[-3000:], "steps": p.s.steps,
            "mono": p.s.mono}


def variant(root, files, spec):
    """Runs in a forked child of a zygote. Returns what is on disk afterwards."""
    ed = None
    fill(root, {})
    for files0, spec0 in spec.get("stale") or ():
        fill(root, files0, clean=False)
        r, why = world._child(lambda files0=files0, spec0=spec0: one(root, files0, spec0), 60)
        if r is None or "harness_error" in r:
            raise RuntimeError(f"stale build: {why} {r}")
        for p in files0:
            os.unlink(f"{root}/{world.PROJ}/{p}")
    for pr in spec.get("prior") or ():
        if pr.get("files"):
            d = f"{root}/{pr['dir']}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            world.Editor(d).sync(pr["files"], 1_700_000_000.0 - 9000)
    fill(root, files, clean=False)
    r = one(root, files, spec)
    out = {}
    for d, _, fs in os.walk(f"{root}/{world.PROJ}/build"):
        for f in fs:
            p = f"{d}/{f}"
            with seams.raw.get("open", open)(p, "rb") as fh:
                b = fh.read()
            out[p[len(f"{root}/{world.PROJ}/build") + 1:]] = hashlib.sha1(b).hexdigest()
    r["disk"] = out
    return r


def run_prior(proc, prior):
    """Inside the simulated process, before its own command: other commands of the same CLI."""
    import sonolus.build.cli as cli

    argv0 = sys.argv
    for pr in prior:
        mods = set(sys.modules)
        path0 = list(sys.path)
        cwd = os.getcwd()
        if pr.get("files"):
            os.chdir(f"{proc.root}/{pr['dir']}")
        sys.argv = ["sonolus-py", pr["cmd"], pr.get("module", "game"), *pr.get("args", []), *(["--build-dir", "pbuild"] if pr["cmd"] == "build" else [])]
        try:
            cli.main()
        except SystemExit:
            pass
        except Exception:  # noqa: BLE001
            proc.s.count("probe.prior_failed")
        proc.s.count("probe.prior_commands")
        os.chdir(cwd)
        sys.path[:] = path0
        if pr.get("files") or pr.get("purge"):
            for m in set(sys.modules) - mods:
                if m.split(".")[0] in ("game", "shared_util", "pydori"):
                    del sys.modules[m]
        else:
            # the command line looks the project up once per process: let it find the same objects again
            pk = sys.modules.get(pr.get("module", "game"))
            if pk is not None and type(getattr(pk, "project", None)) is type(sys):
                del pk.project
    sys.argv = argv0
    sys.path[:] = [p for p in sys.path if p != os.getcwd()]
    gc.enable()
