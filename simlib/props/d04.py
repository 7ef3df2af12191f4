"""D04: the dev server stays live: commands run once, in order, and quit ends it."""

import re

from ..dev import common, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 400, "wall": 110}, "thorough": {"runs": 15000, "wall": 3000}}
RULE = ("one case = one dev session of typed commands (valid, invalid, typed ahead), failing and good rebuilds, disk faults and misbehaving HTTP "
        "clients; non-trivial = at least three command lines and one misbehaving client, failed rebuild, type-ahead or interrupt")
setup = world.setup
BASE = 7_000_000


def junk(rng):
    return rng.choice(["", "   ", "foo", "rebuild now", "d", "d x", "decode 1 2", '"unbalanced', "d 99999999999999999999", "-h", "--help", "r --x", "help me",
                       "quit please", "\\", "q q", "R", "d 1.5", "d -3", "é", "rebuil", "-", "--", "d --"])


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.7)
    cur = m
    code = [BASE + rng.randrange(1000)]
    steps = [{"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS)}]

    def dec():
        code[0] += 1
        return f"{rng.choice(['d', 'decode', ' d  '])} {code[0]}"

    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.25:
            steps.append({"op": "line", "text": dec() if rng.random() < 0.5 else junk(rng)})
        elif r < 0.45:
            texts = []
            for _ in range(rng.randint(2, 6)):
                q = rng.random()
                texts.append(dec() if q < 0.6 else "r" if q < 0.75 else "h" if q < 0.8 else junk(rng))
            steps.append({"op": "lines", "texts": texts})
        elif r < 0.85:
            e, cur = common.gen_edits(rng, cur, 1, ["break", "break", "fix", "const", "res_mod", "level_add"])
            steps += e
            step = {"op": "line", "text": "r"}
            if rng.random() < 0.3:
                step["faults"] = [f for f in common.write_faults(rng) if f["kind"] not in ("death",)]
            steps.append(step)
            if rng.random() < 0.4:
                steps.append({"op": "line", "text": dec()})
        elif r < 0.93:
            steps.append({"op": "sleep", "dt": rng.choice([0.01, 10.0, 4000.0])})
        else:
            steps.append({"op": "jump", "dt": rng.choice([-86400.0, -1.0, 86400.0])})
    steps.append({"op": "line", "text": dec()})
    if rng.random() < 0.15:
        steps.append({"op": "ctrlc"})
    clients = []
    for _ in range(rng.randint(0, 5)):
        clients.append(rng.choice([{"kind": "stall", "rounds": 1}, {"kind": "stall", "half": True, "rounds": 1}, {"kind": "noread", "rounds": 1},
                                   {"kind": "reset", "rounds": 5}, {"kind": "garbage", "rounds": 5}, {"kind": "crawl", "rounds": 2, "every": 0.2}]))
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": None, "clients": clients, "final_quit": True,
            "net_cap": rng.choice([4096, 4096, 300])}


def judge(j):
    res = j.res
    interesting = any(k.startswith("fault.") for k in j.stats)
    lines = 0
    ended = False
    quit_asked = False
    for o in res["obs"]:
        k = o["kind"]
        if k == "liveness":
            raise Violation(o.get("cls", "liveness"), f"{o['text']} (plan step {o['idx']})")
        if k in ("quit", "ctrlc"):
            quit_asked = True
        if k in ("line", "lines"):
            texts = [o["text"]] if k == "line" else o["texts"]
            lines += len(texts)
            interesting = interesting or k == "lines"
            want = []
            for t in texts:
                mm = re.fullmatch(r"\s*(?:d|decode)\s+(\d{7})\s*", t)
                if mm:
                    want.append(mm.group(1))
            got = re.findall(r"Unknown message code: (700\d{4})", o["out"])
            died = not o["alive"]
            if got != want and not (died and got == want[:len(got)]):
                raise Violation("commands-lost-or-reordered", f"plan step {o['idx']}: typed decode commands {want}, executed {got}")
            nh = sum(t.strip() in ("h", "help") for t in texts)
            if o["out"].count("Available Commands:") != nh and not died:
                raise Violation("help-count", f"plan step {o['idx']}: help typed {nh} times, shown {o['out'].count('Available Commands:')} times")
            if died and not (o.get("faulted") and "ctrlc" in o["faulted"]):
                raise Violation("ended-unasked", f"plan step {o['idx']}: the process ended while executing {texts}: {o['out'][-600:]}")
            nr = sum(t.strip() in ("r", "rebuild") for t in texts)
            if nr and not died:
                good = o["out"].count("Rebuild completed")
                bad = len(re.findall(r"^Traceback|^For more details, run with|^\w*Error|Traceback \(most recent", o["out"], re.M))
                if good > nr or (good < nr and not bad):
                    raise Violation("rebuild-count", f"plan step {o['idx']}: {nr} rebuilds typed, {good} completed, no failure reported: {o['out'][-500:]}")
        if k == "served":
            # HTTP answers even after failures
            if any(c == "missing" and "/sonolus/info" in t for c, t in o["bad"]):
                raise Violation("http-down", f"plan step {o['idx']}: {o['bad'][:2]}")
        if k == "exit":
            ended = True
    return res["digest"] if lines >= 3 and interesting else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
