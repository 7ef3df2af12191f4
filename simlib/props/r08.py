"""R08: runtime checks fire exactly when violated, in the configured way."""

import copy
import hashlib
import os

from ..rt import engine as E
from ..rt import engprog, srcgen
from . import r07

TIERS = {"quick": {"runs": 1800, "wall": 110}, "thorough": {"runs": 150000, "wall": 3000}}
setup = r07.setup


def gen(rng, tier, i):
    mode = rng.choice(("play",) * 4 + ("watch", "preview", "tutorial"))
    g = engprog.EngGen(rng, mode, {"err": 1.0})
    src = g.program()
    lv = [rng.choice(E.LEVELS) for _ in range(3)]
    builds = [[c, v] for c, v in zip(("notify", "terminate", "none"), lv)]
    rng.shuffle(builds)
    return {"mode": mode, "src": src, "frames": g.frames(), "drop": g.drop, "builds": builds, "draws": rng.randrange(1 << 30),
            "style": rng.choice(("mixed", "uniform", "low", "high")), "dirty": rng.randrange(1, 1 << 30)}


def run(plan, ctx):
    ctx.setdefault("scratch", os.environ.get("SIM_SCRATCH", "/dev/shm"))
    stats, traces, ends = {}, {}, 0
    for checks, level in plan["builds"]:
        p = dict(copy.deepcopy(plan), checks=checks, levels=[level])
        try:
            drv, _ = r07.simulate(p, ctx, stats)
        except E.NotACase as e:
            if os.environ.get("SIM_VERBOSE"):
                print("not a case:", checks, e)
            k = f"probe.{checks}_not_defined"
            stats[k] = stats.get(k, 0) + 1
            if checks != "none":
                return {"stats": {"probe.not_a_case": 1, "why." + str(e).split(":")[0][:30]: 1}, "digest": "", "states": [], "sim_time": 0.0, "case": None}
            continue
        traces[checks] = drv.trace
        ends += sum(r.n for r in drv.reals)
    if "none" in traces:
        stats["probe.no_condition_violated"] = 1
    dg = hashlib.sha256(repr(sorted(traces.items())).encode()).hexdigest()
    t = plan["frames"][-1]["time"] if plan["frames"] else 0.0
    st = {f"{k}:{c}:{i}:{len(x)}:{sum(1 for n, _ in x if n == 'Message')}" for k, tr in traces.items() for c, i, _, x in tr[:150]}
    return {"stats": stats, "digest": dg[:24], "states": sorted(st), "sim_time": t * len(traces), "case": dg}


def reduce(plan, test, over):
    cur = plan
    for b in plan["builds"]:
        c = dict(cur, builds=[b])
        if len(cur["builds"]) > 1 and test(c):
            cur = c
    for b in plan["builds"]:
        if len(cur["builds"]) > 1 and b in cur["builds"]:
            c = dict(cur, builds=[x for x in cur["builds"] if x != b])
            if test(c):
                cur = c
    r07.shorten(cur, test, over)


RULE = "one case = one random engine whose sources assert, require, index, fill and empty containers, unwrap and raise errors, run with checks off, terminating and notifying; non-trivial = the source side stays inside the documented contract and every build is compared call by call"
STATE_MEASURE = "distinct (checks mode, callback, entity, number of effects, number of messages) tuples"
REAL = r07.REAL
STUB = r07.STUB
ASSUMPTIONS = r07.ASSUMPTIONS
sample = r07.sample
