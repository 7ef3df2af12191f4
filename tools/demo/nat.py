"""Runs generated callbacks compiled by the real optimizer and compares them with a direct interpretation of the same graphs."""
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import shim  # noqa: E402,F401
from rt import cfg, cfggen, env, host  # noqa: E402
from rt.machine import Fault, Machine, StepLimit, compile_tree, run_node  # noqa: E402

import sonolus.script.archetype  # noqa: E402,F401
from sonolus.backend.mode import Mode  # noqa: E402
from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize  # noqa: E402

LEVELS = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}
MODES = {"play": Mode.PLAY, "watch": Mode.WATCH, "preview": Mode.PREVIEW, "tutorial": Mode.TUTORIAL}


def execute(run, e, prog, machine):
    h = host.Host(host.Draws(1, "mixed"))
    m = machine(e.view(prog["ent"], prog["cb"]), env.writable(prog["mode"], prog["cb"]), h, 400000)
    try:
        v = run(m)
        return (("end", v) if not any(getattr(m, k, 0) for k in ("uninit", "unspec", "near")) else ("not compared",)), h.calls
    except Fault as f:
        return ("fault", f.kind), h.calls
    except StepLimit:
        return ("steps",), h.calls


def differs(a, b):
    return len(a) != len(b) or any(x[0] != y[0] or len(x[1]) != len(y[1]) or not all(map(env.same, x[1], y[1])) for x, y in zip(a, b))


bad = 0
for case in json.load(open(os.path.join(HERE, "cases.json"))):
    prog = case["prog"]
    conf = OptimizerConfig(MODES[prog["mode"]], prog["cb"])
    ref = cfg.Snapshot(cfggen.lower(prog))
    for name, level in LEVELS.items():
        fn = compile_tree(optimize_and_finalize(cfggen.lower(prog), level, conf))
        for seed in range(case.get("tries", 40)):
            e = env.Env(prog["mode"], prog["n_ent"], rom=(float("nan"), float("inf"), float("-inf"), 1, 2, 3))
            r = random.Random(seed)
            for k in sorted(e.mem):
                if k not in ("EntityInfo", "TemporaryMemory", "EngineRom"):
                    for i in range(min(8, len(e.mem[k]))):
                        e.mem[k][i] = float(r.choice((0, 0, 1, 1, 2, 3, 5, -1, 0.5, 1.5, 2.5, -7.75, 100)))
            before = e.snapshot()
            out, calls = execute(ref.run, e, prog, lambda *x: cfg.RefMachine(*x))
            after = e.snapshot()
            if out[0] != "end":
                continue
            e.restore(before)
            e.mem["TemporaryMemory"][:] = [r.choice((0.0, 1.0, -5.0, 12345.0)) for _ in e.mem["TemporaryMemory"]]
            o2, c2 = execute(lambda m: run_node(fn, m), e, prog, lambda *x: Machine(*x))
            if o2[0] != "end" or not env.same(out[1], o2[1]) or differs(calls, c2) or env.diff(after, e.snapshot()):
                print(f"{prog['mode']}.{prog['cb']} at level {name}, memory {seed}: {o2} {c2[:4]} instead of {out} {calls[:4]}")
                bad += 1
                break
sys.exit(1 if bad else 0)
