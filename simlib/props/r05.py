"""R05: containers in persistent memory behave like their models over any history."""

from ..rt import contprog
from ..rt import engine as E
from . import r07

TIERS = {"quick": {"runs": 900, "wall": 110}, "thorough": {"runs": 150000, "wall": 3000}}
setup = r07.setup
run = r07.run
sample = r07.sample


def gen(rng, tier, i):
    checks = rng.choice(("none", "terminate", "notify"))
    g = contprog.ContGen(rng, {"guard": checks == "none"})
    src = g.program()
    return {"mode": "play", "src": src, "frames": g.frames(), "drop": [], "levels": rng.sample(E.LEVELS, rng.choice((1, 1, 2))), "checks": checks,
            "draws": rng.randrange(1 << 30), "style": rng.choice(("mixed", "uniform")), "dirty": rng.randrange(1, 1 << 30)}


def reduce(plan, test, over):
    cur = plan
    for l in plan["levels"]:
        c = dict(cur, levels=[l])
        if len(cur["levels"]) > 1 and test(c):
            cur = c
    # one operation at a time is dropped from the history
    n = len(cur["frames"])
    while n > 1 and not over():
        c = dict(cur, frames=cur["frames"][: n // 2])
        if not test(c):
            break
        cur, n = c, n // 2
    k = 0
    while k < len(cur["frames"]) and not over():
        c = dict(cur, frames=cur["frames"][:k] + cur["frames"][k + 1:])
        if len(c["frames"]) and test(c):
            cur = c
        else:
            k += 1
    for k, f in enumerate(cur["frames"]):
        j = 0
        while j < len(cur["frames"][k]["touches"]) and not over():
            fs = [dict(x) for x in cur["frames"]]
            fs[k]["touches"] = fs[k]["touches"][:j] + fs[k]["touches"][j + 1:]
            c = dict(cur, frames=fs)
            if test(c):
                cur = c
            else:
                j += 1
    r07.shorten(cur, test, over)


RULE = "one case = one random set of containers in entity, shared and level memory with a history of operations delivered as touches; non-trivial = the model stays inside the documented contract and every build is compared after every operation"
STATE_MEASURE = r07.STATE_MEASURE
REAL = r07.REAL
STUB = r07.STUB
ASSUMPTIONS = r07.ASSUMPTIONS
