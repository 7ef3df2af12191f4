"""Runs one property's simulation over many seeds, in parallel, and reports."""

from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

from . import boot
from .rng import derive, stream

_time = time.time


class Violation(Exception):
    """Raised by oracles.  `cls` is the violation class kept during minimisation; `sig` identifies a finding."""

    def __init__(self, cls: str, msg: str, sig: str | None = None, detail=None):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.sig, self.detail = cls, msg, sig or cls, detail

    def to_json(self):
        return {"class": self.cls, "message": self.msg, "sig": self.sig, "detail": self.detail}


class HarnessError(Exception):
    pass


MODULES = {}


def load_module(prop: str):
    return importlib.import_module(f"simlib.props.{prop.lower()}")


def known_findings(verif: Path, prop: str) -> dict[str, str]:
    out = {}
    p = verif / "known-findings.json"
    if p.exists():
        for f in json.loads(p.read_text())["findings"]:
            if f["property"] == prop and f.get("status", "open") == "open":
                out[f["sig"]] = f["what"]
    return out


def one_run(mod, plan, ctx):
    """Executes one plan. Returns (violation json | None, info dict)."""
    info = {"stats": {}, "digest": "", "states": []}
    try:
        r = mod.run(plan, ctx)
        if r:
            info.update(r)
        return None, info
    except Violation as v:
        return v.to_json(), info | (getattr(v, "info", None) or {})


def worker(mod, prop, seed, tier, ctx, idxs, fd, deadline, known):
    out = os.fdopen(fd, "w", buffering=1)

    def send(o):
        out.write(json.dumps(o, default=str) + "\n")
        out.flush()

    for i in idxs:
        if _time() > deadline:
            send({"t": "stop", "i": i})
            break
        rs = derive(seed, prop, i)
        try:
            plan = mod.gen(stream(rs, "gen"), tier, i)
            plan["seed"] = rs
            t0 = _time()
            v, info = one_run(mod, plan, ctx)
            if hasattr(mod, "sample") and i < 3:
                info["sample"] = mod.sample(plan, info)
            send({"t": "run", "i": i, "v": v, "info": info, "plan": plan if v else None, "w": _time() - t0})
            if v and v["sig"] not in known:
                break
        except BaseException:
            send({"t": "err", "i": i, "tb": traceback.format_exc()})
            break
    send({"t": "end"})
    out.flush()
    os._exit(0)


def minimise(mod, plan, v, ctx, budget, log):
    """Greedy delta debugging over mod.shrinks(plan) while the violation class persists."""
    t_end = _time() + budget
    best, bestv = plan, v
    tried = 0
    if hasattr(mod, "reduce"):
        def same(cand):
            nonlocal best, bestv, tried
            tried += 1
            try:
                nv, _ = one_run(mod, cand, ctx)
            except Exception:
                return False
            if nv and nv["class"] == v["class"] and nv["sig"] == v["sig"]:
                best, bestv = cand, nv
                return True
            return False

        mod.reduce(plan, same, lambda: _time() > t_end)
    if not hasattr(mod, "shrinks"):
        return best, bestv, tried
    progress = True
    while progress and _time() < t_end:
        progress = False
        for cand in mod.shrinks(best):
            if _time() > t_end:
                break
            tried += 1
            try:
                nv, _ = one_run(mod, cand, ctx)
            except Exception:
                continue
            if nv and nv["class"] == v["class"] and nv["sig"] == v["sig"]:
                best, bestv = cand, nv
                progress = True
                break
    return best, bestv, tried


def in_child(fn, timeout):
    """Runs fn() in a forked child, returns its JSON result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = fn()
            with os.fdopen(w, "w") as f:
                json.dump(res, f, default=str)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    os.close(w)
    buf = b""
    end = _time() + timeout
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - _time()
            if left <= 0:
                with contextlib.suppress(OSError):
                    os.kill(pid, signal.SIGKILL)
                break
            rd, _, _ = select.select([f], [], [], left)
            if rd:
                b = f.read(65536)
                if not b:
                    break
                buf += b
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def main(verif_dir: str, argv: list[str]) -> int:
    verif = Path(verif_dir)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS", "8")))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--digests")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    if argv == ["--selfcheck"]:
        root = boot.prepare(print)
        try:
            boot.install(str(root / "tree"))
            import sonolus.build.cli
            import sonolus.backend.optimize  # noqa: F401

            print("simulated code imports; extensions", "usable" if boot._exts_usable(boot.REPO) else "rebuilt in scratch")
        finally:
            boot.cleanup(root)
        return 0
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = _time()
    root = boot.prepare(lambda s: print(s, file=sys.stderr))
    main_pid = os.getpid()
    try:
        return _main(verif, a, seed, tier, root, t0)
    finally:
        if os.getpid() == main_pid:
            boot.cleanup(root)


def _main(verif, a, seed, tier, root, t0) -> int:
    prop = a.prop
    boot.install(str(root / "tree"))
    mod = load_module(prop)
    known = known_findings(verif, prop)
    ctx = {"root": str(root), "tree": str(root / "tree"), "verif": str(verif), "tier": tier}
    if hasattr(mod, "setup"):
        mod.setup(ctx)

    if a.replay:
        ctx = dict(ctx, worker=98, scratch=str(root / "wreplay"))
        os.makedirs(ctx["scratch"], exist_ok=True)
        plan = json.loads(Path(a.replay).read_text())
        plan = plan.get("plan", plan)
        v, info = one_run(mod, plan, ctx)
        print(json.dumps({"violation": v, "digest": info.get("digest")}, default=str))
        if v:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0

    cfg = mod.TIERS[tier]
    runs = a.runs or cfg["runs"]
    wall = a.wall or cfg.get("wall", 240)
    deadline = _time() + wall
    if a.keep_going:
        known = _Any()
    procs = {}
    jobs = max(1, min(a.jobs, runs))
    for wkr in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            # own process group, so that a kill reaches per-run children too
            os.setpgid(0, 0)
            wctx = dict(ctx, worker=wkr, scratch=str(root / f"w{wkr}"))
            os.makedirs(wctx["scratch"], exist_ok=True)
            try:
                worker(mod, prop, seed, tier, wctx, range(a.start + wkr, a.start + runs, jobs), w, deadline, known)
            finally:
                os._exit(3)
        os.close(w)
        procs[r] = [pid, b"", False]
    stats, kf, samples = Counter(), Counter(), []
    done = 0
    states: set = set()
    digests = {}
    sim_time = 0.0
    nontriv = set()
    found, errors = [], []
    hard_end = deadline + cfg.get("grace", 120)
    live = dict(procs)
    while live:
        rd, _, _ = select.select(list(live), [], [], max(0.1, hard_end - _time()))
        if not rd and _time() > hard_end:
            errors.append("workers stuck past the wall limit")
            break
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if not b:
                if not live[fd][2]:
                    errors.append(f"worker {live[fd][0]} died")
                del live[fd]
                continue
            live[fd][1] += b
            *lines, live[fd][1] = live[fd][1].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if m["t"] == "end":
                    live[fd][2] = True
                elif m["t"] == "err":
                    errors.append(f"run {m['i']}: {m['tb']}")
                elif m["t"] == "stop":
                    stats["runs_cut_by_wall_limit"] += 1
                elif m["t"] == "run":
                    done += 1
                    info = m["info"]
                    stats.update(info.get("stats") or {})
                    states.update(info.get("states") or ())
                    sim_time += info.get("sim_time", 0.0)
                    if info.get("case"):
                        nontriv.add(info["case"])
                    digests[m["i"]] = info.get("digest", "")
                    if "sample" in info and len(samples) < 4:
                        samples.append({"run": m["i"], "case": info["sample"]})
                    if m["v"]:
                        if m["v"]["sig"] in known:
                            kf[m["v"]["sig"]] += 1
                            if a.keep_going:
                                print("FOUND", m["i"], m["v"]["class"], m["v"]["sig"], m["v"]["message"][:300])
                        else:
                            found.append((m["i"], m["plan"], m["v"]))
        if found or errors:
            break
    for pid, _, _ in procs.values():
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.waitpid(pid, 0)
    for fd in procs:
        with contextlib.suppress(OSError):
            os.close(fd)
    if a.digests:
        Path(a.digests).write_text("\n".join(f"{k} {v}" for k, v in sorted(digests.items())) + "\n")
    wall_s = _time() - t0
    rc = 0
    replay_path = None
    note = None
    if found:
        found.sort(key=lambda x: x[0])
        i, plan, v = found[0]
        print(f"run {i} (seed {plan['seed']}) violated {prop}: {v['class']}: {v['message'][:1500]}")
        mctx = dict(ctx, worker=99, scratch=str(root / "wmin"))
        os.makedirs(mctx["scratch"], exist_ok=True)
        tried = 0
        if not a.no_minimise:
            budget = cfg.get("minimise", 60)

            def go():
                p, nv, n = minimise(mod, plan, v, mctx, budget, print)
                return {"plan": p, "v": nv, "n": n}

            res = in_child(go, budget + 60)
            cand = [(plan, v)]
            if res:
                tried = res["n"]
                cand.insert(0, (res["plan"], res["v"]))
        else:
            cand = [(plan, v)]
        (verif / "replays").mkdir(exist_ok=True)
        replay_path = verif / "replays" / f"{prop}-{seed}-{i}.json"
        ok = False
        for cplan, cv in cand:
            replay_path.write_text(json.dumps(
                {"property": prop, "run": i, "verif_seed": seed, "seed": plan["seed"], "violation": cv,
                 "minimisation_attempts": tried, "plan": cplan}, indent=1, default=str))
            env = dict(os.environ)
            r = subprocess.run([sys.executable, str(verif / "run.py"), prop, "--replay", str(replay_path)],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            if r.returncode == 1 and '"class": ' + json.dumps(cv["class"]) in r.stdout:
                ok = True
                break
        note = "replayed in a fresh process: reproduced" if ok else "replay in a fresh process did NOT reproduce it"
        print(note)
        if not ok and not getattr(mod, "REPORT_UNREPRODUCED", False):
            errors.append("violation did not reproduce in a fresh process; " + r.stdout[-1500:])
        else:
            print(f"minimised violation: {cv['class']}: {cv['message'][:1500]}")
            print(f"VIOLATION property={prop} replay={replay_path}")
            rc = 1
    if errors and rc == 0:
        for e in errors[:3]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        rc = 2
    for sig, n in sorted(kf.items()):
        if not a.keep_going:
            print(f"KNOWN-FINDING: property={prop} {known[sig]} (hit in {n} runs)")
    if not a.keep_going:
        for sig, what in known.items():
            if sig not in kf:
                print(f"KNOWN-FINDING: property={prop} {what} (not hit in this run)")
    faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")}
    probes = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("probe.")}
    other = {k: n for k, n in sorted(stats.items()) if not k.startswith(("fault.", "probe."))}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples,
        "runs_per_hour": round(done / max(wall_s, 1e-9) * 3600),
        "seeds": f"derived from VERIF_SEED={seed}, runs {a.start}..{a.start + runs - 1}",
        "simulated_seconds": round(sim_time, 3),
        "faults_injected": faults,
        "rare_condition_probes": probes,
        "counters": other,
        "distinct_states": len(states),
        "state_measure": getattr(mod, "STATE_MEASURE", "n/a"),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "digest_of_all_runs": hashlib.sha256("".join(f"{k}{v}" for k, v in sorted(digests.items())).encode()).hexdigest()[:16],
        "known_findings_hit": dict(kf),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall_s, 2), "violations": 1 if rc == 1 else 0}
    if rc != 2 and not a.keep_going:
        (verif / "evidence").mkdir(exist_ok=True)
        (verif / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop}: {done} runs, {len(nontriv)} distinct cases, {len(states)} states, {wall_s:.1f}s, rc={rc}")
    if faults:
        print("  faults:", faults)
    if probes:
        print("  probes:", probes)
    if os.environ.get("SIM_VERBOSE"):
        print("  other:", other)
    return rc


class _Any:
    def __contains__(self, x):
        return True

    def __getitem__(self, x):
        return x

    def items(self):
        return ()
