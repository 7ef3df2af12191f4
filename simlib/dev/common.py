"""Plan generation, minimisation and shared judgement for the dev-world properties."""

from __future__ import annotations

import copy
import hashlib

from ..runner import Violation
from . import model, world

REAL = ["sonolus.build.cli (argument parsing, import_project, build, dev)", "sonolus.build.dev_server (command loop, input thread, HTTP handler)",
        "sonolus.build.collection / project / engine / level", "sonolus frontend (visitor, archetypes) and native optimizer extensions",
        "stdlib socketserver, http.server, queue, threading.Condition/Event, pathlib, shutil, zipfile, gzip, importlib", "generated user projects"]
STUB = ["OS thread scheduling and locks (seeded baton scheduler)", "clock (virtual)", "TCP sockets and selectors (in-memory pipes)",
        "stdin/stdout", "file system calls (real scratch directory behind a fault and scheduling layer; process death instead of power loss)",
        "user's browser/app (scripted HTTP clients), operator and editor (scripted)"]
ASSUMPTIONS = [
    "the file system is modelled as a POSIX one whose completed writes survive process death (no power loss: the tool never promises it)",
    "module imports are atomic with respect to the scheduler; edits during a rebuild land at file operations of the build",
    "thread preemption happens at lock, file, socket, stdio and clock operations",
]

ARGS = [[], [], ["-O0"], ["-O1"], ["--runtime-checks", "notify"], ["--runtime-checks", "none"], ["--play"], ["--play", "--watch"], ["-v"], ["--gc"]]


def sched(rng):
    r = rng.random()
    if r < 0.3:
        return {"mode": "rand", "p": 0.02, "seed": rng.randrange(1 << 30)}
    if r < 0.7:
        return {"mode": "rand", "p": rng.choice([0.1, 0.25, 0.5]), "seed": rng.randrange(1 << 30)}
    return {"mode": "pct", "d": rng.randint(1, 8), "seed": rng.randrange(1 << 30)}


def write_faults(rng):
    """Faults for one command; positions spread over the file operations of a build of a small project."""
    r = rng.random()
    nth = rng.choice([rng.randint(1, 8), rng.randint(1, 60), rng.randint(1, 160)])
    if r < 0.25:
        return [{"kind": "disk_full", "bytes": rng.choice([0, rng.randint(1, 400), rng.randint(400, 6000), rng.randint(6000, 40000)])}]
    if r < 0.5:
        return [{"kind": rng.choice(["EIO", "ENOSPC"]), "nth": nth, "frac": rng.choice([0, 0.3, 0.99])}]
    if r < 0.62:
        return [{"kind": "EIO", "op": "write", "match": "/repository/", "skip": rng.randint(0, 6), "frac": rng.choice([0, 0.5, 0.9])}]
    if r < 0.7:
        return [{"kind": "EIO", "op": rng.choice(["mkdir", "rename", "open_w", "unlink", "rmdir"]), "skip": rng.randint(0, 10)}]
    if r < 0.8:
        return [{"kind": "short", "nth": nth + i, "frac": rng.random()} for i in range(rng.randint(1, 6))]
    if r < 0.9:
        return [{"kind": "ctrlc", "nth": nth}]
    return [{"kind": "death", "nth": nth, "frac": rng.random()}, {"kind": "death", "op": "write", "skip": rng.randint(0, 40), "frac": rng.random()}][: rng.randint(1, 2)]


def style(rng):
    return rng.choice(["inplace", "inplace", "replace", "old_inplace", "old_replace"])


def gen_edits(rng, cur, n, kinds=None, breaks=model.BROKEN):
    out = []
    for _ in range(n):
        cur, k = model.edit(rng, cur, rng.choice(kinds) if kinds else None, breaks)
        e = {"op": "edit", "model": cur, "kind": k, "style": style(rng)}
        out.append(e)
    return out, cur


SAFE_EDITS = [k for k in model.EDITS if k not in ("break",)]


# ---------------------------------------------------------------------- shrinking
def _simplify_models(plan, fn):
    p = copy.deepcopy(plan)
    changed = False
    for m in [p["model"], *[s["model"] for s in p["steps"] if s["op"] == "edit"], *[e["model"] for s in p["steps"] for e in s.get("during") or ()]]:
        changed |= bool(fn(m))
        model.fix_engines(m)
    p.pop("_recorded", None)
    return p if changed else None


def _mk(key, empty):
    def fn(m):
        if m.get(key) and m[key] != empty:
            m[key] = copy.deepcopy(empty)
            return True
        return False

    return fn


def _one_item(m):
    ch = False
    for c, items in m["items"].items():
        for n in sorted(items)[1:]:
            del items[n]
            ch = True
    return ch


def _small_files(m):
    ch = False
    for items in m["items"].values():
        for it in items.values():
            if len(it["files"]) > 1:
                k = sorted(it["files"])[0]
                it["files"] = {k: it["files"][k]}
                ch = True
    return ch


def _one_arch(m):
    pl = [a for a in m["archs"] if a["mode"] == "play"]
    if len(m["archs"]) > 1:
        m["archs"] = pl[:1]
        return True
    return False


MODEL_SIMPL = [_mk("levels", {}), _mk("scps", {}), _mk("tutorial", False), _mk("options", 0), _mk("converters", []), _mk("level_items", {}),
               _mk("thumb", None), _mk("engine_skin", None), _mk("lazy_levels", False), _one_item, _small_files, _one_arch, _mk("sprites", 0)]


def shrinks(plan):
    def c(**kw):
        p = copy.deepcopy(plan)
        p.pop("_recorded", None)
        p.update(kw)
        return p

    steps = plan["steps"]
    n = len(steps)
    # drop blocks of steps, largest first
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            rest = steps[:i] + steps[i + size:]
            if any(s["op"] == "start" for s in rest):
                yield c(steps=copy.deepcopy(rest))
        size //= 2
    for i in range(len(plan.get("clients") or ())):
        cl = list(plan["clients"])
        del cl[i]
        yield c(clients=cl)
    for i, s in enumerate(steps):
        for key in ("faults", "during"):
            for j in range(len(s.get(key) or ())):
                p = c()
                del p["steps"][i][key][j]
                yield p
        if len(s.get("texts") or ()) > 1:
            for j in range(len(s["texts"])):
                p = c()
                del p["steps"][i]["texts"][j]
                yield p
        if s.get("style", "inplace") != "inplace":
            p = c()
            p["steps"][i]["style"] = "inplace"
            yield p
        if s.get("args"):
            p = c()
            p["steps"][i]["args"] = []
            yield p
    sc = plan["sched"]
    if not (sc["mode"] == "rand" and sc["p"] == 0.0):
        yield c(sched={"mode": "rand", "p": 0.0, "seed": 1})
        if sc["mode"] == "rand" and sc["p"] > 0.02:
            yield c(sched=dict(sc, p=0.02))
    if plan.get("scan_seed") is not None:
        yield c(scan_seed=None)
    for fn in MODEL_SIMPL:
        p = _simplify_models(plan, fn)
        if p:
            yield p
    if sc["mode"] != "explicit" and plan.get("_recorded") and sc != {"mode": "rand", "p": 0.0, "seed": 1}:
        rec = plan["_recorded"]
        if len(rec) == 1 or all(not v for k, v in rec.items() if k != 1):
            yield c(sched={"mode": "explicit", "switch": rec.get(1, rec.get("1", {})), "seed": sc.get("seed", 0), "was": sc["mode"]})
    if sc["mode"] == "explicit":
        sw = sorted(sc["switch"].items(), key=lambda kv: int(kv[0]))
        size = len(sw) // 2
        while size >= 1:
            for i in range(0, len(sw), size):
                yield c(sched=dict(sc, switch=dict(sw[:i] + sw[i + size:])))
            size //= 2


# ---------------------------------------------------------------------- judgement helpers
def start_args(plan, proc):
    n = 0
    for s in plan["steps"]:
        if s["op"] == "start":
            n += 1
            if n == proc:
                return s.get("args", [])
    return []


class Judge:
    def __init__(self, plan, res, ctx):
        self.plan, self.res, self.ctx = plan, res, ctx
        self.stats = res["stats"]

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fresh(self, snap, proc, cmd="dev"):
        self.count("oracle_fresh_builds")
        return world.fresh(self.res["snaps"][snap], start_args(self.plan, proc), self.ctx, self.plan, cmd)


def info(plan, res, case=None):
    st = dict(res["stats"])
    st["sim_steps"] = res["steps"]
    st["processes"] = len(res["ends"])
    for e in res["ends"]:
        k = e.get("end") or ("deadlock" if e.get("deadlock") else "stuck")
        st["end_" + k] = st.get("end_" + k, 0) + 1
    nreb = sum(o["kind"] == "rebuild" for o in res["obs"])
    st["rebuilds"] = nreb
    st["rebuilds_ok"] = sum(o["kind"] == "rebuild" and o["ok"] for o in res["obs"])
    return {"stats": st, "digest": res["digest"], "states": [hashlib.sha1(repr(s).encode()).hexdigest()[:10] for s in res["states"]],
            "sim_time": res["sim_time"], "case": case or res["digest"]}


def do_run(plan, ctx, judge):
    res = world.play(plan, ctx)
    plan["_recorded"] = {k: v for k, v in res["recorded"].items()}
    j = Judge(plan, res, ctx)
    try:
        case = judge(j)
    except Violation as v:
        v.info = info(plan, res)
        raise
    return info(plan, res, case)


def sample(plan, inf):
    return {"steps": [{k: (v if k not in ("model", "during") else "...") for k, v in s.items()} for s in plan["steps"]], "sched": plan["sched"],
            "clients": plan.get("clients", []), "digest": inf.get("digest")}


STATE_MEASURE = "distinct ordered pairs of (task kind, scheduling point) adjacent across a context switch"
