"""D07: builds are reproducible whatever the process does not control."""

import hashlib
import os
import re

from .. import zygote
from ..dev import common, model, world
from ..dev.common import REAL, STATE_MEASURE, STUB  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 260, "wall": 110}, "thorough": {"runs": 10000, "wall": 3000}}
RULE = ("one case = one project and command built several times under different hash seeds, directory orders, clocks, heap layouts, collector settings, "
        "left-over build directories and earlier commands in the process; non-trivial = at least two builds succeeded and were compared byte by byte")
ASSUMPTIONS = ["hash seeds are sampled from a fixed set of interpreters; heap layouts are varied by seeded allocation with address randomisation off"]

HASHES = [0, 1, 77, 4242]
setup = world.setup


def pydori(ctx):
    base = f"{ctx['tree']}/test_projects"
    out = {}
    for d, dirs, fs in os.walk(f"{base}/pydori"):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                with open(f"{d}/{f}", "rb") as fh:
                    out[f"{d[len(base) + 1:]}/{f}"] = fh.read()
    return out


def gen_variant(rng, m, cmd, big):
    v = {"hash": rng.choice(HASHES), "scan_seed": rng.randrange(1, 1 << 20) if rng.random() < 0.8 else None, "now": rng.choice([1.7e9, 1.0, 2.0e9 + 0.37, 1.7e9 + rng.random() * 1e6]),
         "alloc": rng.randrange(1, 1 << 30) if rng.random() < 0.6 else 0, "prior": [], "stale": [], "gc": None, "extra": []}
    if rng.random() < 0.3:
        v["gc"] = [rng.choice([1, 7, 50, 500]) if not big else 300, 5, 5]
        v["extra"].append("--gc")
    if rng.random() < 0.3:
        v["extra"].append(rng.choice(["-v", "--profile"]) if cmd == "build" else "-v")
    for _ in range(rng.choice([0, 0, 0, 1, 2]) if not big else rng.choice([0, 0, 1])):
        r = rng.random()
        if r < 0.45 or big:
            v["prior"].append({"cmd": rng.choice(["build", "check"]), "args": rng.choice(common.ARGS), "same": True, "purge": rng.random() < 0.3})
        else:
            o, _ = model.edit(rng, model.gen(rng, small=True), "break" if rng.random() < 0.5 else "const")
            v["prior"].append({"cmd": rng.choice(["build", "check"]), "args": rng.choice(common.ARGS), "model": o, "dir": f"other{len(v['prior'])}"})
    if rng.random() < 0.3 and not big:
        o = model.gen(rng, small=True)
        for _ in range(rng.randint(1, 2)):
            v["stale"].append({"model": o, "cmd": rng.choice(["dev", "build"]), "args": [], "faults": common.write_faults(rng) if rng.random() < 0.5 else []})
    return v


def gen(rng, tier, i):
    big = i % 40 == 7
    m = model.gen(rng, small=rng.random() < 0.2)
    for _ in range(rng.randint(0, 3)):
        m, _ = model.edit(rng, m, rng.choice([k for k in model.EDITS if k != "break"]))
    cmd = "build" if big or rng.random() < 0.4 else "dev"
    args = rng.choice(common.ARGS)
    args = [a for a in args if a not in ("--gc", "-v")]
    return {"model": m, "big": big, "cmd": cmd, "args": args, "variants": [gen_variant(rng, m, cmd, big) for _ in range(rng.randint(2, 4) if not big else 2)]}


def run(plan, ctx):
    files = pydori(ctx) if plan["big"] else model.render(plan["model"])
    module = "pydori" if plan["big"] else "game"
    prefix = "dist/" if plan["cmd"] == "build" else "site/"
    stats = {}
    states = set()
    root = f"{ctx['scratch']}/repro"

    def build(v):
        prior = []
        for p in v["prior"]:
            q = {"cmd": p["cmd"], "args": p["args"], "module": module, "purge": p.get("purge")}
            if p.get("model"):
                q.update(files=model.render(p["model"]), dir=p["dir"], module="game")
            prior.append(q)
        spec = {"cmd": plan["cmd"], "args": plan["args"] + v["extra"], "module": module, "scan_seed": v["scan_seed"], "now": v["now"], "alloc": v["alloc"], "gc": v["gc"],
                "prior": prior, "stale": [(model.render(s["model"]), {k: s[k] for k in ("cmd", "args", "faults")}) for s in v["stale"]]}
        z = zygote.get(ctx, v["hash"])
        r = z.call("simlib.dev.repro:variant", root, files, spec)
        for k, c in (("hash_seed", v["hash"] != 0), ("scan_order", v["scan_seed"] is not None), ("clock", v["now"] != 1.7e9), ("heap_layout", bool(v["alloc"])),
                     ("gc_schedule", bool(v["gc"])), ("left_over_build_dir", bool(v["stale"])), ("earlier_command_same_project", any(not p.get("model") for p in v["prior"])),
                     ("earlier_command_other_project", any(p.get("model") for p in v["prior"]))):
            if c:
                stats["fault." + k] = stats.get("fault." + k, 0) + 1
        stats["builds"] = stats.get("builds", 0) + 1
        r["files"] = {p: h for p, h in r["disk"].items() if p.startswith(prefix)}
        return r

    base = build({"hash": 0, "scan_seed": None, "now": 1.7e9, "alloc": 0, "gc": None, "prior": [], "stale": [], "extra": []})
    ok = base["end"].get("code") == 0
    h = hashlib.sha256(repr((base["end"], sorted(base["files"].items()))).encode())
    for n, v in enumerate(plan["variants"]):
        r = build(v)
        states.add(hashlib.sha1(repr((v["hash"], bool(v["scan_seed"]), bool(v["alloc"]), v["gc"], [(p["cmd"], bool(p.get("model")), p["args"]) for p in v["prior"]],
                                      len(v["stale"]), plan["cmd"], plan["args"])).encode()).hexdigest()[:10])
        h.update(repr((r["end"], sorted(r["files"].items()))).encode())
        if (r["end"].get("code") == 0) != ok:
            raise Violation("outcome", f"build ends with {base['end']} plainly and with {r['end']} in variant {n} {brief(v)}: {r['out'][-300:]} {r['err'][-700:]}")
        if ok and r["files"] != base["files"]:
            d, k = world.diff_closure(r["files"], base["files"])
            raise Violation("bytes", f"{k} files differ between two builds of the same project: {d}; variant {n}: {brief(v)}")
    return {"stats": stats, "digest": h.hexdigest()[:24], "states": sorted(states), "sim_time": 0.0, "case": h.hexdigest() if ok else None}


def brief(v):
    return re.sub(r"'model': \{.*?\}\}?", "'model': ...", str({k: x for k, x in v.items() if x}))[:400]


def shrinks(plan):
    import copy

    for i in range(len(plan["variants"])):
        if len(plan["variants"]) > 1:
            p = copy.deepcopy(plan)
            del p["variants"][i]
            yield p
    for i, v in enumerate(plan["variants"]):
        for k, z in (("scan_seed", None), ("alloc", 0), ("gc", None), ("prior", []), ("stale", []), ("extra", []), ("hash", 0), ("now", 1.7e9)):
            if v[k] != z:
                p = copy.deepcopy(plan)
                p["variants"][i][k] = z
                yield p
        for k in ("prior", "stale"):
            for j in range(len(v[k])):
                if len(v[k]) > 1:
                    p = copy.deepcopy(plan)
                    del p["variants"][i][k][j]
                    yield p
    if plan["args"]:
        yield dict(copy.deepcopy(plan), args=[])
    if not plan["big"]:
        for fn in common.MODEL_SIMPL:
            p = copy.deepcopy(plan)
            if fn(p["model"]):
                model.fix_engines(p["model"])
                yield p


def sample(plan, info):
    return {"cmd": plan["cmd"], "args": plan["args"], "variants": [brief(v) for v in plan["variants"]]}
