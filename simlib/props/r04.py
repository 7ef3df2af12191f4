"""R04: streams replay what was recorded, exactly once per key."""

import copy
import hashlib
import os
import random

from ..rt import engine as E
from ..rt import host, srcgen, streamprog
from ..runner import Violation
from . import r07

TIERS = {"quick": {"runs": 2800, "wall": 110}, "thorough": {"runs": 150000, "wall": 3000}}
setup = r07.setup
CAP = 8


def gen(rng, tier, i):
    g = streamprog.StreamGen(rng)
    src = g.program()
    play = g.play_frames()
    n = rng.choice((1, 2, 2, 3))
    return {"src": src, "play": play, "watch": g.watch_frames(play), "levels": rng.sample(E.LEVELS, n), "swap": rng.random() < 0.3,
            "groups": [[1000 + j, k, size] for j, (_, k, _, size) in enumerate(g.fields) if k != "data"],
            "checks": rng.choice(("none", "terminate", "notify")), "draws": rng.randrange(1 << 30), "style": "mixed", "dirty": rng.randrange(1, 1 << 30)}


class Recorder(E.Watch):
    """Watch, noting which keys the recording entity was given."""

    def call(self, cb, i):
        v = super().call(cb, i)
        if i == 0 and cb == "updateParallel":
            vals = [c[1][0] for c in self.trace[-1][3]]
            self.keys.extend((self.frame_no, *vals[k:k + 3]) for k in range(0, len(vals), 3))
        return v


def simulate(plan, ctx, stats):
    text = srcgen.text(plan["src"])
    if srcgen.free_names(srcgen.parse(text), r07.known()):
        raise E.NotACase("free names")
    om = E.oracle_module(text, plan["checks"])
    if any(not hasattr(om, n) for n in ("ARCHETYPES", "WATCH_ARCHETYPES", "UPDATE_SPAWN", "LEVEL")) or not om.LEVEL:
        raise E.NotACase("incomplete")
    try:
        rm = E.real_module(text, ctx["scratch"])
    except Exception as e:  # noqa: BLE001
        raise Violation("import", f"a valid source is rejected: {type(e).__name__}: {str(e)[:200]}", f"import:{type(e).__name__}") from e
    try:
        lv = E.package_level(rm)
        plan = dict(plan, frames=plan["play"])

        def oracle(mode, streams):
            return E.Oracle(om, mode, plan["checks"], streams=streams, level=om.LEVEL)

        tabs = {}
        E.Play(oracle("play", tabs), [], plan, {}, CAP).run()
        dry = Recorder(oracle("watch", tabs), [], dict(plan, frames=plan["watch"]), {}, CAP)
        dry.keys = []
        dry.run()
        pkgs = []
        for l in plan["levels"]:
            try:
                pkgs.append(E.package({"play": rm, "watch": rm}, l, plan["checks"]))
            except Exception as e:  # noqa: BLE001
                c = e
                while c.__cause__ is not None:
                    c = c.__cause__
                raise Violation("compile", f"a valid program does not compile at level {l}: {type(c).__name__}: {str(c)[:300]}", f"compile:{type(c).__name__}:{r07.norm(str(c))}") from e
    finally:
        E.drop_module(rm)

    def real(l, pkg, mode, streams):
        s = E.Real(l, pkg, mode, CAP, streams=streams, level=lv)
        s.dirty = plan["dirty"]
        return s

    tabs = {}
    recs = [host.Streams() for _ in pkgs]
    p = E.Play(oracle("play", tabs), [real(l, k, "play", r) for l, k, r in zip(plan["levels"], pkgs, recs)], plan, stats, CAP)
    p.run()
    if plan["swap"]:  # a replay of one build watched in another
        recs = recs[1:] + recs[:1]
    w = Recorder(oracle("watch", tabs), [real(l, k, "watch", r) for l, k, r in zip(plan["levels"], pkgs, recs)], dict(plan, frames=plan["watch"]), stats, CAP)
    w.keys = []
    w.run()
    # over a replay without jumps, every key of every stream arrives once and in order
    if all(f["delta"] >= 0 and not f.get("skip") for f in plan["watch"]) and type(om.LEVEL[0]).name == "Rec":
        lo = plan["watch"][0]["time"] - plan["watch"][0]["delta"]
        hi = plan["watch"][-1]["time"]
        names = list(om.S._f_)
        for tag, kind, size in plan["groups"]:
            if tag - 1000 >= len(names):
                continue
            n = names[tag - 1000]
            for g in range(size if kind == "group" else 1):
                want = [k for k in sorted(tabs.get((n, g) if kind == "group" else n, ())) if lo < k <= hi]
                got = [x for _, t, gg, x in w.keys if t == tag and gg == g]
                if want != got:
                    raise E.NotACase("the model and the history disagree")
        stats["probe.whole_replays"] = 1
    stats["probe.keys_delivered"] = stats.get("probe.keys_delivered", 0) + len(w.keys)
    if any(f.get("skip") for f in plan["watch"]):
        stats["fault.replay_jump"] = sum(1 for f in plan["watch"] if f.get("skip"))
    stats["fault.stalled_frame"] = sum(1 for f in plan["watch"] if f["delta"] == 0)
    return p, w


def run(plan, ctx):
    ctx.setdefault("scratch", os.environ.get("SIM_SCRATCH", "/dev/shm"))
    plan = copy.deepcopy(plan)
    stats = {}
    try:
        p, w = simulate(plan, ctx, stats)
    except E.NotACase as e:
        if os.environ.get("SIM_VERBOSE"):
            print("not a case:", e)
        return {"stats": {"probe.not_a_case": 1, "why." + str(e).split(":")[0][:30]: 1}, "digest": "", "states": [], "sim_time": 0.0, "case": None}
    dg = hashlib.sha256(repr((p.trace, w.trace)).encode()).hexdigest()
    return {"stats": stats, "digest": dg[:24], "states": [f"{f}:{t}:{g}:{x}" for f, t, g, x in w.keys[:100]], "sim_time": plan["watch"][-1]["time"] - plan["watch"][0]["time"], "case": dg if w.trace else None}


def reduce(plan, test, over):
    cur = plan
    for l in plan["levels"]:
        c = dict(cur, levels=[l], swap=False)
        if len(cur["levels"]) > 1 and test(c):
            cur = c
    for part in ("watch", "play"):
        n = len(cur[part]) // 2
        while n >= 1 and not over():
            k = 0
            while k < len(cur[part]) and not over():
                c = dict(cur, **{part: cur[part][:k] + cur[part][k + n:]})
                if (c[part] or part == "play") and test(c):
                    cur = c
                else:
                    k += n
            n //= 2
    srcgen.reduce_nodes(cur["src"], lambda s: test(dict(cur, src=s)), over)


RULE = "one case = one random engine with streams, a play-through recording them and a replay with its own frame timing; non-trivial = the replay ran and every build was compared with the model"
STATE_MEASURE = "distinct (frame, stream, group index, key) deliveries"
REAL = r07.REAL
STUB = r07.STUB
ASSUMPTIONS = ["The host reports frame times whose difference is the reported delta exactly, so that prev_time() is the time of the frame before.", "The engine's stream functions return what their documentation says."]
del random


def sample(plan, info):
    return {"source": srcgen.text(plan["src"])[:1500]}
