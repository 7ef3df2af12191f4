"""D06: a rebuild that fails leaves the served site untouched."""

from ..dev import common, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 300, "wall": 110}, "thorough": {"runs": 12000, "wall": 3000}}
RULE = ("one case = one dev session with rebuilds failing because of the project or of a write error, each followed by a full crawl; "
        "non-trivial = at least one rebuild failed and the site served afterwards was compared with the one served before")
setup = world.setup


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.5)
    cur = m
    steps = [{"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS)}]
    for _ in range(rng.randint(1, 4)):
        e, cur = common.gen_edits(rng, cur, rng.randint(0, 2), common.SAFE_EDITS)
        steps += e
        if rng.random() < 0.3:
            steps.append({"op": "line", "text": "r"})
        if rng.random() < 0.75:
            for _ in range(rng.randint(1, 2)):
                e, cur = common.gen_edits(rng, cur, 1, ["break"])
                if rng.random() < 0.6:
                    e2, cur = common.gen_edits(rng, cur, rng.randint(1, 2), [*common.SAFE_EDITS, "res_mod", "item_json_only", "res_add"])
                    e += e2
                steps += e
                steps.append({"op": "line", "text": "r"})
        else:
            steps.append({"op": "line", "text": "r", "faults": [f for f in common.write_faults(rng) if f["kind"] not in ("death", "ctrlc")]})
        if rng.random() < 0.7:
            e, cur = common.gen_edits(rng, cur, 1, ["fix"])
            steps += e
            if rng.random() < 0.3:
                e, cur = common.gen_edits(rng, cur, 1, common.SAFE_EDITS)
                steps += e
            steps.append({"op": "line", "text": "r"})
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
            "clients": [{"kind": "crawl", "rounds": 3, "every": 0.05}] if rng.random() < 0.2 else [], "final_quit": True}


def judge(j):
    res = j.res
    prev = None
    failures = 0
    ever: dict[int, dict[str, str]] = {}
    for o in res["obs"]:
        if o["kind"] == "client":
            for cls, text in o["bad"]:
                if cls in ("missing", "dangling"):
                    raise Violation("client-" + cls, text)
        if o["kind"] != "served":
            continue
        clo = o["closure"]
        project_failure = o["label"] == "rebuild" and not o["ok"] and not o["faulted"]
        write_failure = o["label"] == "rebuild" and not o["ok"] and o["faulted"]
        if project_failure and prev is not None:
            failures += 1
            j.count("probe.project_failures")
            if o["bad"] != prev["bad"] or clo != prev["closure"]:
                d, n = world.diff_closure(clo, prev["closure"])
                raise Violation("site-changed", f"plan step {o['idx']}: after a failed rebuild {n} documents differ from before it: {d} {o['bad'][:2]}")
        elif write_failure and prev is not None:
            failures += 1
            j.count("probe.write_failures")
            f = j.fresh(o["want"], o["proc"])
            new = f["closure"] or {}
            for p, h in clo.items():
                if h not in (prev["closure"].get(p), new.get(p), ever.get(o["proc"], {}).get(p)):
                    raise Violation("third-version", f"plan step {o['idx']}: after a rebuild cut off by a write error {p} is neither at its previous nor at its new version")
            for p in prev["closure"]:
                # whatever is still listed must still be there; unlisted documents are simply not reached
                if p in new and p not in clo and "/repository/" not in p and not p.startswith("/sonolus/levels"):
                    raise Violation("lost-document", f"plan step {o['idx']}: {p} was served before and is part of the new version but is gone: {o['bad'][:2]}")
        elif o["label"] == "rebuild" and o["ok"] and failures:
            f = j.fresh(o.get("want") or o["snap"], o["proc"])
            if f["ok"]:
                d, n = world.diff_closure(clo, f["closure"])
                if n:
                    raise Violation("not-recovered", f"plan step {o['idx']}: the rebuild after a failed one differs from a fresh build in {n} documents: {d}")
                j.count("probe.recoveries")
        prev = o
        # successive failed writes may leave documents at any of the versions attempted since
        if write_failure:
            for p, h in clo.items():
                ever.setdefault(o["proc"], {})[p] = h
    return res["digest"] if failures else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
