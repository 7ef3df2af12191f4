"""D03: a rebuild serves exactly what a fresh build would serve."""

from ..dev import common, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 420, "wall": 110}, "thorough": {"runs": 15000, "wall": 3000}}
RULE = ("one case = one dev session history of source/level/resource/converter edits (also during builds, with old timestamps, with clock "
        "steps), failing and successful rebuilds; non-trivial = at least one rebuild succeeded after an edit and was compared with a fresh build")
setup = world.setup

# edits worth following by a rebuild that must show them
FOCUS = [None, None, None, ["conv", "conv_off", "lvitem_add", "lvitem_mod", "lvitem_del"], ["res_mod", "res_file", "res_del", "res_add", "item_json_only", "res_dir"],
         ["helper", "shared", "const", "arch_k"], ["break", "fix", "const", "shared", "res_mod"], ["scp", "scp_del", "res_dir", "thumb"],
         ["level_add", "level_del", "level_mod", "arch_add", "arch_del", "watch_toggle", "tutorial", "rename"], ["msgs", "options", "sprites", "engine_skin"]]


def during(rng, cur):
    e, cur = common.gen_edits(rng, cur, 1, common.SAFE_EDITS)
    e = e[0]
    if rng.random() < 0.5:
        e["side"] = "r"
        e["nth"] = rng.choice([rng.randint(1, 40), rng.randint(20, 160)])
    else:
        e["nth"] = rng.randint(1, 60)
    return [e], cur


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.4)
    cur = m
    steps = []
    for _ in range(1 if rng.random() < 0.8 else 2):
        steps.append({"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS)})
        focus = rng.choice(FOCUS)
        for _ in range(rng.randint(2, 6)):
            for _ in range(rng.randint(1, 2)):
                e, cur = common.gen_edits(rng, cur, 1, focus if rng.random() < 0.75 else None)
                steps += e
                if rng.random() < 0.1:
                    steps.append({"op": "sleep", "dt": rng.choice([0.0005, 0.5, 30.0])})
                if rng.random() < 0.08:
                    steps.append({"op": "jump", "dt": rng.choice([-7200.0, -3.0, -0.001, 86400.0])})
            r = {"op": "line", "text": rng.choice(["r", "r", "rebuild", " r "])}
            if rng.random() < 0.15:
                r["during"], cur = during(rng, cur)
            elif rng.random() < 0.15:
                r["faults"] = [f for f in common.write_faults(rng) if f["kind"] not in ("death", "ctrlc")]
            steps.append(r)
        if cur["broken"]:
            e, cur = common.gen_edits(rng, cur, 1, ["fix"])
            steps += e
        steps.append({"op": "line", "text": "r"})
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
            "clients": [{"kind": "crawl", "rounds": 1}] if rng.random() < 0.1 else [], "final_quit": True}


def judge(j):
    res = j.res
    compared = 0
    for o in res["obs"]:
        if o["kind"] == "rebuild" and not o["ok"] and not o["raced"] and not o["faulted"]:
            f = j.fresh(o["snap"], o["proc"])
            if f["ok"]:
                raise Violation("spurious-failure", f"rebuild at step {o['idx']} failed although a fresh build of the same files succeeds: {o['out'][-700:]}")
            j.count("probe.rebuild_fails_like_fresh")
        if o["kind"] != "served" or not (o["label"] == "start" or (o["label"] == "rebuild" and o["ok"])):
            continue
        if o.get("raced"):
            j.count("probe.raced_rebuild")
            continue
        if o.get("faulted") and any(k not in ("short",) for k in o["faulted"]):
            j.count("probe.ok_despite_write_fault")
        f = j.fresh(o.get("want") or o["snap"], o["proc"])
        if not f["ok"]:
            raise Violation("built-broken", f"step {o['idx']}: a rebuild reports success for files a fresh build rejects: {f['out'][-300:]} {f['err'][-500:]}")
        if o["bad"]:
            raise Violation("incomplete-site", f"step {o['idx']}: {o['bad'][:3]}")
        d, n = world.diff_closure(o["closure"], f["closure"])
        if n:
            raise Violation("differs-from-fresh", f"step {o['idx']}: {n} documents or assets differ from a fresh build of the same files: {d}")
        if o["label"] == "rebuild":
            compared += 1
    return res["digest"] if compared else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
