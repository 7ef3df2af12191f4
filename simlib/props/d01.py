"""D01: written sites are intact after any write fault, crash or restart."""

from ..dev import common, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 320, "wall": 110}, "thorough": {"runs": 12000, "wall": 3000}}
RULE = ("one case = one project history (processes of `dev` and `build`, edits, rebuilds) with disk faults, deaths and Ctrl-C placed at file "
        "operations; non-trivial = at least one fault fired and a later build reported success and was judged")
setup = world.setup


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.5)
    cur = m
    steps = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.2:
            for _ in range(rng.randint(1, 3)):
                steps.append({"op": "start", "cmd": "build", "args": rng.choice(common.ARGS), "faults": common.write_faults(rng) if rng.random() < 0.6 else []})
                if rng.random() < 0.5:
                    e, cur = common.gen_edits(rng, cur, 1, common.SAFE_EDITS)
                    steps += e
            steps.append({"op": "start", "cmd": "build", "args": rng.choice(common.ARGS)})
            continue
        steps.append({"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS), "faults": common.write_faults(rng) if rng.random() < 0.3 else []})
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.7:
                e, cur = common.gen_edits(rng, cur, rng.randint(1, 2), common.SAFE_EDITS if rng.random() < 0.9 else None)
                steps += e
            if rng.random() < 0.75:
                steps.append({"op": "line", "text": "r", "faults": common.write_faults(rng)})
                if rng.random() < 0.6:
                    steps.append({"op": "line", "text": "r"})
            else:
                steps.append({"op": "line", "text": "r"})
        if rng.random() < 0.3:
            steps.append({"op": rng.choice(["kill", "ctrlc"])})
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
            "clients": [{"kind": "crawl", "rounds": 2}] if rng.random() < 0.2 else [], "final_quit": True}


def judge(j):
    res = j.res
    fired = sum(v for k, v in j.stats.items() if k.startswith("fault."))
    judged = 0
    for o in res["obs"]:
        if o["kind"] == "escape":
            raise Violation("escape", o["text"])
        if o["kind"] == "served":
            success = o["label"] == "start" or o.get("ok")
            for cls, text in o["bad"]:
                if success:
                    raise Violation(cls + "-after-success", f"{text} (after a reported success, process {o['proc']}, step {o['idx']})", sig=cls + "-after-success")
                if cls in ("torn", "badhash", "dangling"):
                    raise Violation(cls + "-after-failure", f"{text} (after a failed rebuild, process {o['proc']}, step {o['idx']}; faults {o.get('faulted')})", sig=cls + "-after-failure")
            if success:
                judged += 1
                if o["label"] == "rebuild" and o["faulted"]:
                    j.count("probe.success_despite_fault")
                if fired and not o["faulted"]:
                    j.count("probe.success_after_earlier_fault")
                    # a clean success: everything as a fresh build has it
                    if not o.get("raced"):
                        f = j.fresh(o.get("want") or o["snap"], o["proc"])
                        if f["ok"]:
                            d, n = common.world.diff_closure(o["closure"], f["closure"])
                            if n and any("repository" in x and "absent" in x for x in d):
                                raise Violation("lost-after-fault", f"{n} differences to a fresh build: {d}")
        if o["kind"] == "disk" and o["cmd"] == "build":
            end = next(e for e in res["ends"] if e.get("proc") == o["proc"])
            if end.get("end") == "exit" and end.get("code") == 0:
                f = j.fresh(end["snap"], o["proc"], "build")
                judged += 1
                j.count("probe.build_command_judged")
                for p, h in f["disk"].items():
                    if o["files"].get(p) != h:
                        raise Violation("dist-incomplete", f"{p} {'absent' if p not in o['files'] else 'differs from a fresh build'} after a successful build")
    return res["digest"] if fired and judged else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
