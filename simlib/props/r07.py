"""R07: a packaged engine behaves as its Python source, entity by entity."""

import copy
import hashlib
import os
import re

from ..rt import engine as E
from ..rt import engprog, host, srcgen
from ..runner import Violation

TIERS = {"quick": {"runs": 6000, "wall": 90}, "thorough": {"runs": 200000, "wall": 3000}}
CAP = 24


def setup(ctx):
    from ..rt import api  # noqa: F401
    import sonolus.build.engine  # noqa: F401
    import sonolus.build.level  # noqa: F401


def gen(rng, tier, i):
    mode = rng.choice(("play",) * 6 + ("watch",) * 3 + ("preview", "tutorial"))
    g = engprog.EngGen(rng, mode, {})
    src = g.program()
    return {"mode": mode, "src": src, "frames": g.frames(), "drop": g.drop, "levels": rng.sample(E.LEVELS, rng.choice((1, 1, 2))), "checks": rng.choice(("none", "none", "terminate", "notify")),
            "draws": rng.randrange(1 << 30), "style": rng.choice(("mixed", "uniform", "low", "high")), "dirty": rng.randrange(1, 1 << 30)}


def norm(msg):
    """A message without addresses and generated names."""
    return re.sub(r"0x[0-9a-f]+", "0x", re.sub(r"(?<=[A-Za-z])_?\d+", "#", msg))[:120]


def known():
    from ..rt import stub

    return set(stub.__all__)


def simulate(plan, ctx, stats, mods=None):
    text = srcgen.text(plan["src"])
    if srcgen.free_names(srcgen.parse(text), known()):
        raise E.NotACase("free names")
    om = E.oracle_module(text, plan["checks"])
    need = ("ARCHETYPES", "LEVEL") if plan["mode"] != "tutorial" else ()
    if any(not hasattr(om, n) for n in need):
        raise E.NotACase("incomplete")
    try:
        rm = E.real_module(text, ctx["scratch"])
    except Exception as e:  # noqa: BLE001
        raise Violation("import", f"a valid source is rejected: {type(e).__name__}: {str(e)[:200]}", f"import:{type(e).__name__}") from e
    try:
        try:
            lv = E.package_level(rm) if hasattr(rm, "LEVEL") else None
        except Exception as e:  # noqa: BLE001
            raise Violation("level", f"a valid level is rejected: {type(e).__name__}: {str(e)[:200]}", f"level:{type(e).__name__}") from e
        reals = []
        # the source first: a program outside the contract is not a case
        oracle = E.Oracle(om, plan["mode"], plan["checks"], level=getattr(om, "LEVEL", None))
        solo = E.MODES[plan["mode"]](oracle, [], plan, {}, CAP, plan["style"])
        solo.run()
        oracle = E.Oracle(om, plan["mode"], plan["checks"], level=getattr(om, "LEVEL", None))
        for l in plan["levels"]:
            try:
                pkg = E.package({plan["mode"]: rm}, l, plan["checks"])
            except Exception as e:  # noqa: BLE001
                c = e
                while c.__cause__ is not None:
                    c = c.__cause__
                raise Violation("compile", f"a valid program does not compile at level {l}: {type(c).__name__}: {str(c)[:300]}", f"compile:{type(c).__name__}:{norm(str(c))}") from e
            s = E.Real(l, pkg, plan["mode"], CAP, level=lv)
            s.dirty = plan["dirty"]
            reals.append(s)
        drv = E.MODES[plan["mode"]](oracle, reals, plan, stats, CAP, plan["style"])
        drv.run()
        return drv, reals
    finally:
        E.drop_module(rm)


def run(plan, ctx):
    ctx.setdefault("scratch", os.environ.get("SIM_SCRATCH", "/dev/shm"))
    plan = copy.deepcopy(plan)
    stats = {}
    try:
        drv, reals = simulate(plan, ctx, stats)
    except E.NotACase as e:
        if os.environ.get("SIM_VERBOSE"):
            print("not a case:", e)
        return {"stats": {"probe.not_a_case": 1, "why." + str(e).split(":")[0][:30]: 1}, "digest": "", "states": [], "sim_time": 0.0, "case": None}
    dg = hashlib.sha256(repr(drv.trace).encode()).hexdigest()
    t = plan["frames"][-1]["time"] if plan["frames"] else 0.0
    return {"stats": stats, "digest": dg[:24], "states": [f"{c}:{i}:{len(x)}" for c, i, _, x in drv.trace[:200]], "sim_time": t, "case": dg}


def reduce(plan, test, over):
    cur = plan
    for l in plan["levels"]:
        c = dict(cur, levels=[l])
        if len(cur["levels"]) > 1 and test(c):
            cur = c
    shorten(cur, test, over)


def shorten(plan, test, over):
    cur = plan
    for k in range(len(plan.get("drop") or ())):
        c = dict(cur, drop=[])
        if test(c):
            cur = c
            break
        c = dict(cur, drop=[d for d in cur["drop"] if d != plan["drop"][k]])
        if test(c):
            cur = c
    n = 1
    while n < len(cur["frames"]) and not over():
        c = dict(cur, frames=cur["frames"][:n])
        if test(c):
            cur = c
            break
        n *= 2
    srcgen.reduce_nodes(cur["src"], lambda s: test(dict(cur, src=s)), over)


RULE = "one case = one random engine with a level and a history of frames; non-trivial = the source side runs to the end inside the documented contract and every build is compared"
STATE_MEASURE = "distinct (callback, entity, number of effects) triples"
REAL = ["frontend", "optimizer", "packaging of engine and level"]
STUB = ["engine host", "source side: CPython running the same text against simlib.rt.stub"]
ASSUMPTIONS = []


def sample(plan, info):
    return {"source": srcgen.text(plan["src"])[:1500]}
