"""R06: random APIs stay in contract for every sequence of draws."""

import copy
import hashlib
import os
import random
import struct

from ..rt import engine as E
from ..rt import host, randprog, srcgen
from ..runner import Violation
from . import r07

TIERS = {"quick": {"runs": 2600, "wall": 110}, "thorough": {"runs": 200000, "wall": 3000}}
setup = r07.setup
CAP = 8


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:24]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Host32(host.Host):
    """The engine's numbers from its random source are 32-bit floats."""

    def __call__(self, name, a):
        v = super().__call__(name, a)
        return f32(v) if name == "Random" else v


def gen(rng, tier, i):
    reach = rng.random() < 0.3
    g = randprog.RandGen(rng, reach)
    src = g.program()
    return {"src": src, "specs": g.specs, "groups": g.groups, "reach": reach, "frames": 700 if reach else rng.choice((8, 20, 60)), "draws": rng.randrange(1 << 30), "dirty": rng.randrange(1, 1 << 30),
            "style": "uniform" if reach else rng.choice(("mixed", "mixed", "uniform", "low", "high")), "levels": rng.sample(E.LEVELS, rng.choice((1, 2, 3))), "checks": rng.choice(("none", "terminate", "notify"))}


def simulate(plan, ctx, stats):
    text = srcgen.text(plan["src"])
    try:
        compile(text, "x", "exec")
    except SyntaxError as e:
        raise E.NotACase("syntax") from e
    try:
        rm = E.real_module(text, ctx["scratch"])
    except Exception as e:  # noqa: BLE001
        raise Violation("import", f"a valid source is rejected: {type(e).__name__}: {str(e)[:200]}", f"import:{type(e).__name__}") from e
    try:
        lv = E.package_level(rm)
        reals = []
        for l in plan["levels"]:
            try:
                pkg = E.package({"play": rm}, l, plan["checks"])
            except Exception as e:  # noqa: BLE001
                c = e
                while c.__cause__ is not None:
                    c = c.__cause__
                raise Violation("compile", f"a valid program does not compile at level {l}: {type(c).__name__}: {str(c)[:300]}", f"compile:{type(c).__name__}:{r07.norm(str(c))}") from e
            s = E.Real(l, pkg, "play", CAP, level=lv)
            s.dirty = plan["dirty"]
            s.host_class = Host32
            reals.append(s)
    finally:
        E.drop_module(rm)
    for s in reals:
        s.load(set())
    order = random.Random(plan["draws"])
    step = 0
    seen = [{} for _ in reals]
    out = []

    def all_(cb, i):
        nonlocal step
        step += 1
        first = None
        for s, sn in zip(reals, seen):
            _, calls, _ = s.call(cb, i, plan["draws"] * 1_000_003 + step, plan["style"])
            where = f"frame {n} {cb} of entity {i} at level {s.name}"
            try:
                randprog.judge(calls, plan["specs"], sn)
            except randprog.Bad as e:
                raise Violation(e.kind, f"{where}: {e}", e.kind) from None
            stats["callbacks"] = stats.get("callbacks", 0) + 1
            stats["fault.random_draw"] = stats.get("fault.random_draw", 0) + sum(1 for c in calls if c[0] in ("Random", "RandomInteger"))
            if first is None:
                first = calls
                out.append(calls)
            elif len(first) != len(calls) or not all(E.same_call(a, b, s) for a, b in zip(first, calls)):
                j = next((j for j, (a, b) in enumerate(zip(first, calls)) if not E.same_call(a, b, s)), min(len(first), len(calls)))
                raise Violation("levels", f"{where}: effect {j} is {calls[j:j + 1]}, at level {reals[0].name} {first[j:j + 1]}", "levels")

    n = -1
    ents = range(reals[0].n)
    f = {"time": 0.0, "delta": 0.0, "touches": []}
    for s in reals:
        s.frame(f)
    for i in ents:
        for s in reals:
            s.state(i, 1)
        all_("initialize", i)
    for n in range(plan["frames"]):
        f = {"time": n * 0.25, "delta": 0.25, "touches": [[0.0] * 15]}
        for s in reals:
            s.frame(f)
        for cb in ("updateSequential", "touch", "updateParallel"):
            es = list(ents)
            if cb == "updateParallel":
                order.shuffle(es)
            for i in es:
                all_(cb, i)
        stats["frames"] = stats.get("frames", 0) + 1
        if plan["reach"] and n % 100 == 99 and all(sum(g.values()) >= 40 * len(ev) for sn in seen for ev, g in sn.values()):
            break
    if plan["style"] == "uniform":
        for s, sn in zip(reals, seen):
            m = randprog.missing(sn)
            if m:
                key, gone, times, got = m
                raise Violation("reach", f"level {s.name}: operation {plan['specs'][key[0]]} ({key[1]}) ran {times} times with uniform draws and never gave {gone[:6]} (gave {got})", "reach")
    stats["probe.outcomes"] = stats.get("probe.outcomes", 0) + sum(len(g) for sn in seen for _, g in sn.values())
    return out, seen


def run(plan, ctx):
    ctx.setdefault("scratch", os.environ.get("SIM_SCRATCH", "/dev/shm"))
    plan = copy.deepcopy(plan)
    stats = {}
    try:
        out, seen = simulate(plan, ctx, stats)
    except E.NotACase as e:
        return {"stats": {"probe.not_a_case": 1}, "digest": "", "states": [], "sim_time": 0.0, "case": None}
    used = stats.get("fault.random_draw", 0) > 0
    d = digest([[list(map(repr, c)) for c in cs] for cs in out[:400]])
    states = sorted({f"{plan['specs'][k[0]][0]}:{k[1:]}:{o}" for sn in seen for k, (_, g) in sn.items() for o in g})[:200]
    return {"stats": stats, "digest": d, "states": states, "sim_time": plan["frames"] * 0.25, "case": digest(plan["src"]) if used else None}


def reduce(plan, test, over):
    cur = plan
    for l in plan["levels"]:
        c = dict(cur, levels=[l])
        if len(cur["levels"]) > 1 and test(c):
            cur = c
    while cur["frames"] > 1 and not over():
        c = dict(cur, frames=cur["frames"] // 2)
        if not test(c):
            break
        cur = c
    srcgen.reduce_nodes(cur["src"], lambda src: randprog.intact(srcgen.text(src), plan["groups"]) and test(dict(cur, src=src)), over)


def sample(plan, info):
    return {"source": srcgen.text(plan["src"]).splitlines()[:40], "style": plan["style"], "levels": plan["levels"], "frames": plan["frames"]}


RULE = "one case = one random engine using the random APIs, run over many frames under a scripted random source; non-trivial = at least one draw was made and every result was judged"
STATE_MEASURE = "distinct (operation, arguments, outcome) triples"
REAL = r07.REAL
STUB = r07.STUB
ASSUMPTIONS = ["The random source returns numbers of its documented ranges: Random(a, b) both ends included and rounded to 32 bits, RandomInteger(a, b) without b.", "Reachability is judged with uniform draws, over at least 40 executions per outcome."]
