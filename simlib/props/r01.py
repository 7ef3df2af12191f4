"""R01: optimisation levels never change what a callback does (random graphs over every mode and callback)."""

import copy
import hashlib
import random
from array import array

from ..rt import cfg, cfggen, env, host
from ..rt.machine import Fault, Machine, StepLimit, compile_tree, run_node
from ..runner import Violation

TIERS = {"quick": {"runs": 60000, "wall": 95}, "thorough": {"runs": 400000, "wall": 3000}}
LEVELS = ("minimal", "fast", "standard")


def levels():
    from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES

    return dict(zip(LEVELS, (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)))


def modes():
    from sonolus.backend.mode import Mode

    return {"play": Mode.PLAY, "watch": Mode.WATCH, "preview": Mode.PREVIEW, "tutorial": Mode.TUTORIAL}


def setup(ctx):
    import sonolus.backend.optimize  # noqa: F401
    import sonolus.script.archetype  # noqa: F401


VALUES = [0, 0, 0, 1, 1, 2, 3, 5, -1, -2, 0.5, -0.5, 1.25, 7, 12, 100, -7.75]
XVALUES = [float("inf"), float("-inf"), float("nan"), 1e300, -1e300, 2.0**53, 1e-320, 65536, -0.0, 4294967296.0]


def fill(e, blocks, rng, extreme):
    """The host changes values between invocations."""
    for b in blocks:
        name = next((n for n, (_, a) in env.ENTITY[e.mode].items() if a == b), b)
        m = e.mem[name]
        if name == "EntityInfo":
            continue
        for i in rng.sample(range(len(m)), min(len(m), 12)):
            m[i] = float(rng.choice(VALUES if not (extreme and rng.random() < 0.15) else XVALUES))
        for i in range(min(4, len(m))):
            if rng.random() < 0.6:
                m[i] = float(rng.choice(VALUES if not (extreme and rng.random() < 0.15) else XVALUES))


def gen(rng, tier, i):
    mode = rng.choice(["play", "play", "play", "watch", "watch", "preview", "tutorial"])
    cb = rng.choice(env.CALLBACKS[mode])
    p = cfggen.Gen(rng, mode, cb, big=rng.random() < 0.15).program()
    return {"prog": p, "inv": [{"fill": rng.randrange(1 << 30), "draws": rng.randrange(1 << 30), "style": rng.choice(["mixed", "mixed", "uniform", "low", "high"])}
                               for _ in range(rng.choice([2, 3, 4]))], "extreme": rng.random() < 0.3, "via": rng.choice(["fused", "fused", "split"])}


def dump(snap):
    return b"".join(k.encode() + array("d", snap[k]).tobytes() for k in sorted(snap))


def execute(run, e, prog, inv, machine, dirty):
    """One invocation; returns (outcome, value, calls)."""
    h = host.Host(host.Draws(inv["draws"], inv["style"]))
    h.streams.d = {1.0: {0.0: 1.0, 1.0: 3.0, 2.5: -1.0}, 2.0: {1.0: 4.0}}
    temp = e.mem["TemporaryMemory"]
    if dirty is not None:
        r = random.Random(dirty)
        for k in range(96):
            temp[k] = r.choice((-1.0, 0.0, 1.0, 7.5, 1e18, 3.0))
    m = machine(e.view(prog["ent"], prog["cb"]), env.writable(prog["mode"], prog["cb"]), h, 20000)
    try:
        v = run(m)
        return ("end", v), h, m
    except Fault as f:
        return ("fault", f.kind, str(f)), h, m
    except StepLimit:
        return ("steps",), h, m


def run(plan, ctx):
    prog = plan["prog"]
    lv = levels()
    mode = modes()[prog["mode"]]
    from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes

    conf = OptimizerConfig(mode, prog["cb"])
    ref = cfg.Snapshot(cfggen.lower(prog))
    compiled = {}
    for name, level in lv.items():
        g = cfggen.lower(prog)
        node = optimize_and_finalize(g, level, conf) if plan["via"] == "fused" else cfg_to_engine_node(run_passes(g, level, conf))
        compiled[name] = compile_tree(node)
    e = env.Env(prog["mode"], prog["n_ent"], rom=(float("nan"), float("inf"), float("-inf"), 1, 2, 3))
    dg = hashlib.sha256()
    stats = {}
    steps = 0
    ok = True
    for k, inv in enumerate(plan["inv"]):
        fill(e, prog["blocks"], random.Random(inv["fill"]), plan["extreme"])
        before = e.snapshot()
        out, h, m = execute(ref.run, e, prog, inv, cfg.RefMachine, None)
        after = e.snapshot()
        steps += m.steps
        if out[0] != "end" or m.uninit or m.unspec:
            stats["probe.reference_" + (out[0] if out[0] != "end" else "reads_unset" if m.uninit else "unspecified_arithmetic")] = 1
            ok = False
            break
        dg.update(repr((out, h.calls)).encode() + dump(after))
        stats["invocations"] = stats.get("invocations", 0) + 1
        stats["host_calls"] = stats.get("host_calls", 0) + len(h.calls)
        for c in h.calls:
            if c[0] in ("Random", "RandomInteger"):
                stats["fault.random_draw"] = stats.get("fault.random_draw", 0) + 1
        stats["fault.host_memory_change"] = stats.get("fault.host_memory_change", 0) + 1
        stats["fault.dirty_scratch_memory"] = stats.get("fault.dirty_scratch_memory", 0) + 3
        if plan["extreme"]:
            stats["fault.extreme_host_values"] = stats.get("fault.extreme_host_values", 0) + 1
        for name, fn in compiled.items():
            e.restore(before)
            o2, h2, m2 = execute(lambda mm: run_node(fn, mm), e, prog, inv, Machine, inv["fill"] + len(name))
            try:
                compare(f"invocation {k} of {prog['mode']}.{prog['cb']} at level {name}", name, out, h, after, o2, h2, e.snapshot())
            except Violation as v:
                if not m.near:
                    raise
                raise Violation(v.cls, v.msg + "; the test of a many-way branch was within rounding of a case without being equal to it", "switch-rounding") from None
        e.restore(after)
    return {"stats": stats, "digest": dg.hexdigest()[:24], "states": [f"{prog['mode']}.{prog['cb']}:{steps % 997}"], "sim_time": 0.0,
            "case": dg.hexdigest() if ok else None}


def compare(where, level, out, h, after, o2, h2, after2):
    if o2[0] != "end":
        raise Violation(o2[0], f"{where}: {o2} where the unoptimised graph ends normally", f"{o2[0]}:{level}")
    if not env.same(out[1], o2[1]):
        raise Violation("result", f"{where}: returns {o2[1]} instead of {out[1]}", f"result:{level}")
    if len(h.calls) != len(h2.calls) or any(a[0] != b[0] or len(a[1]) != len(b[1]) or not all(map(env.same, a[1], b[1])) for a, b in zip(h.calls, h2.calls)):
        j = next((j for j, (a, b) in enumerate(zip(h.calls, h2.calls)) if a[0] != b[0] or len(a[1]) != len(b[1]) or not all(map(env.same, a[1], b[1]))), min(len(h.calls), len(h2.calls)))
        raise Violation("calls", f"{where}: host call {j} is {h2.calls[j:j + 1]} instead of {h.calls[j:j + 1]} ({len(h2.calls)} calls, expected {len(h.calls)})", f"calls:{level}")
    d = env.diff(after, after2)
    if d:
        raise Violation("memory", f"{where}: memory differs (block, index, expected, found): {d}", f"memory:{level}")


def shrinks(plan):
    for n in range(len(plan["inv"])):
        if len(plan["inv"]) > 1:
            p = copy.deepcopy(plan)
            del p["inv"][n]
            yield p
    for b in cfggen.subterms(plan["prog"]["body"]):
        p = copy.deepcopy(plan)
        p["prog"]["body"] = b
        yield p
    if plan["prog"]["ret"] is not None:
        p = copy.deepcopy(plan)
        p["prog"]["ret"] = None
        yield p
    if plan["extreme"]:
        yield dict(copy.deepcopy(plan), extreme=False)


RULE = ("one case = one random control flow graph of one mode and callback, compiled at three levels and run over several invocations with host-changed memory, "
        "scripted random draws and dirty scratch memory; non-trivial = the unoptimised graph ran to its end in every invocation, all levels compared")
STATE_MEASURE = "distinct (mode, callback, reference step count) triples"
REAL = ["sonolus.backend native optimizer: marshal, all passes, allocation, emission"]
ASSUMPTIONS = ["the host's node semantics are those of simlib.rt.machine, written from the engine's documented functions",
               "0 * NaN and 0 * infinity may fold to 0 (documented compiler policy): invocations whose unoptimised graph evaluates one are not compared",
               "the sign of zero is not observable, so the sign of a division by zero is not either: such invocations are not compared",
               "a random draw whose value is not used need not be made"]
STUB = ["engine host (memory, host functions, random source): simlib.rt.env/host/machine", "frontend (graphs are generated)"]


def sample(plan, info):
    return {"mode": plan["prog"]["mode"], "callback": plan["prog"]["cb"], "body": str(plan["prog"]["body"])[:400]}
