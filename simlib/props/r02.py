"""R02: compiled callbacks do not depend on leftover scratch memory, never share a slot between live values, stay inside the block."""

import copy
import hashlib
import random

from ..rt import cfg, cfggen, env, host
from ..rt.machine import Fault, Machine, StepLimit, compile_tree, run_node
from ..runner import Violation
from . import r01

TIERS = {"quick": {"runs": 70000, "wall": 100}, "thorough": {"runs": 200000, "wall": 3000}}
setup = r01.setup
GARBAGE = {"nan": lambda r: float("nan"), "inf": lambda r: float("inf"), "neg": lambda r: -1.0, "ptr": lambda r: float(r.choice((10000, 4000, 2001, 4096, 1e9))),
           "small": lambda r: float(r.choice((0, 1, 2, 3, 0.5, -2))), "big": lambda r: r.choice((1e300, -1e300, 1e18, 2.0**53))}
SMALL = 3200


def gen(rng, tier, i):
    mode = rng.choice(["play", "play", "watch", "watch", "preview", "tutorial"])
    n_ent = rng.choice([1, 2, 3])
    progs = []
    moves = rng.random() < 0.5
    for _ in range(rng.choice([1, 2, 2, 3])):
        if moves:
            progs.append({"p": cfggen.shuffle(rng, mode, rng.choice(env.CALLBACKS[mode]), n_ent), "level": rng.choice(("minimal", "fast", "fast", "standard", "standard")), "via": rng.choice(["fused", "split"])})
            continue
        g = cfggen.Gen(rng, mode, rng.choice(env.CALLBACKS[mode]), scratch=True, n_ent=n_ent)
        progs.append({"p": g.program(), "level": rng.choice(r01.LEVELS), "via": rng.choice(["fused", "split"])})
    blocks = sorted({b for p in progs for b in p["p"]["blocks"]})
    order = [rng.randrange(len(progs)) for _ in range(rng.choice([3, 5, 8]))]
    return {"mode": mode, "n_ent": n_ent, "progs": progs, "blocks": blocks, "mem": rng.randrange(1 << 30),
            "steps": [{"prog": k, "draws": rng.randrange(1 << 30), "style": "mixed",
                       "scratch": rng.choice(["left", "left", "left", *sorted(GARBAGE), "mixed", "stripe"]), "gs": rng.randrange(1 << 30)} for k in order]}


def spread(vs, n):
    return (vs * (n // len(vs) + 1))[:n]


def soil(temp, kind, seed):
    """What earlier callbacks (of this or any other engine code) left in the scratch block."""
    if kind == "left":
        return
    r = random.Random(seed)
    if kind in GARBAGE:
        f = GARBAGE[kind]
        v = f(r)
        temp[:] = [v] * len(temp) if kind in ("nan", "inf", "neg") else spread([f(r) for _ in range(61)], len(temp))
    elif kind == "mixed":
        pool = [f(r) for f in GARBAGE.values() for _ in range(4)]
        temp[:] = spread(r.choices(pool, k=251), len(temp))
    else:
        lo = r.randrange(len(temp))
        for k in range(lo, min(len(temp), lo + r.choice((8, 64, 1024)))):
            temp[k] = float("nan")


def run(plan, ctx):
    from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes

    lv, mode = r01.levels(), r01.modes()[plan["mode"]]
    stats, decks = {}, []
    for p in plan["progs"]:
        prog = p["p"]
        conf = OptimizerConfig(mode, prog["cb"])
        ref = cfg.Snapshot(cfggen.lower(prog))
        try:
            node = (optimize_and_finalize(cfggen.lower(prog), lv[p["level"]], conf) if p["via"] == "fused"
                    else cfg_to_engine_node(run_passes(cfggen.lower(prog), lv[p["level"]], conf)))
        except ValueError as e:
            if "memory limit" not in str(e):
                raise
            stats["probe.rejected_for_space"] = stats.get("probe.rejected_for_space", 0) + 1
            if ref.total < SMALL:
                raise Violation("rejected", f"{prog['mode']}.{prog['cb']} at level {p['level']} needs {ref.total} slots at most, but is rejected: {e}", f"rejected:{p['level']}") from None
            decks.append(None)
            continue
        decks.append((prog, ref, compile_tree(node), p["level"]))
        if ref.total > 4096:
            stats["probe.fitted_by_sharing_slots"] = stats.get("probe.fitted_by_sharing_slots", 0) + 1
    rom = (float("nan"), float("inf"), float("-inf"), 1, 2, 3)
    a, b = env.Env(plan["mode"], plan["n_ent"], rom=rom), env.Env(plan["mode"], plan["n_ent"], rom=rom)
    r01.fill(a, plan["blocks"], random.Random(plan["mem"]), False)
    b.restore(a.snapshot())
    dg = hashlib.sha256()
    done = 0
    steps = 0
    for k, st in enumerate(plan["steps"]):
        d = decks[st["prog"]]
        if d is None:
            continue
        prog, ref, fn, level = d
        before = a.snapshot()
        out, h, m = r01.execute(ref.run, a, prog, st, lambda *x: cfg.RefMachine(*x[:3], 200000), None)
        if out[0] != "end" or m.uninit or m.unspec or m.near:
            stats["probe.step_not_compared"] = stats.get("probe.step_not_compared", 0) + 1
            a.restore(before)
            continue
        after = a.snapshot()
        steps += m.steps
        soil(b.mem["TemporaryMemory"], st["scratch"], st["gs"])
        key = "fault.scratch_" + ("left_by_other_callbacks" if st["scratch"] == "left" else "overwritten_" + st["scratch"])
        stats[key] = stats.get(key, 0) + 1
        o2, h2, m2 = r01.execute(lambda mm: run_node(fn, mm), b, prog, st, lambda *x: Machine(*x[:3], 400000), None)
        dg.update(repr((out, h.calls)).encode() + r01.dump(after))
        done += 1
        r01.compare(f"step {k}, {prog['mode']}.{prog['cb']} at level {level} over scratch memory {st['scratch']!r}", level, out, h, after, o2, h2, b.snapshot())
    stats["steps"] = done
    return {"stats": stats, "digest": dg.hexdigest()[:24], "states": [f"{plan['mode']}.{st['scratch']}:{steps % 499}" for st in plan["steps"][:3]], "sim_time": 0.0,
            "case": dg.hexdigest() if done else None}


def shrinks(plan):
    for n in range(len(plan["steps"])):
        if len(plan["steps"]) > 1:
            p = copy.deepcopy(plan)
            del p["steps"][n]
            yield p
    for n in range(len(plan["progs"])):
        if not any(s["prog"] == n for s in plan["steps"]) and len(plan["progs"]) > 1:
            p = copy.deepcopy(plan)
            del p["progs"][n]
            for s in p["steps"]:
                s["prog"] -= s["prog"] > n
            yield p
    for n, q in enumerate(plan["progs"]):
        for b in cfggen.subterms(q["p"]["body"]):
            p = copy.deepcopy(plan)
            p["progs"][n]["p"]["body"] = b
            yield p


RULE = ("one case = a deck of generated callbacks (scalars, whole and partly written arrays, up to and beyond the scratch size) compiled at random levels and run in a random "
        "order over one scratch block that keeps what earlier callbacks left or is overwritten with garbage; non-trivial = at least one step compared with the reference")
STATE_MEASURE = "distinct (mode, kind of scratch contents, reference step count) triples"
ASSUMPTIONS = ["generated callbacks never read an element they have not written (steps whose reference does are not compared)", *r01.ASSUMPTIONS]
REAL = r01.REAL
STUB = r01.STUB


def sample(plan, info):
    return {"mode": plan["mode"], "callbacks": [(p["p"]["cb"], p["level"], p["p"]["arrays"]) for p in plan["progs"]], "steps": [(s["prog"], s["scratch"]) for s in plan["steps"]]}


_ = (Fault, StepLimit, host)
