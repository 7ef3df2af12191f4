"""D02: clients of the dev server only ever see complete, resolvable documents."""

from ..dev import common, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 300, "wall": 110}, "thorough": {"runs": 12000, "wall": 3000}}
RULE = ("one case = one dev session with several HTTP clients (whole-site crawlers, pollers of single documents, slow readers, resetting ones) "
        "interleaved by the scheduler with rebuilds; non-trivial = client requests were in flight while files of a rebuild were written")
setup = world.setup


def paths(rng, m):
    p = ["/sonolus/info", f"/sonolus/engines/{m['name']}", "/sonolus/engines/list", "/sonolus/engines/info", "/sonolus/skins/list", "/sonolus/skins/info"]
    for c, items in m["items"].items():
        p += [f"/sonolus/{c}/{n}" for n in items]
        p.append(f"/sonolus/{c}/list")
    if m["levels"] or m["level_items"]:
        p += ["/sonolus/levels/list", "/sonolus/levels/info"]
    p += [f"/sonolus/levels/{n}" for n in [*m["levels"], *m["level_items"]]]
    return rng.sample(p, min(len(p), rng.randint(1, 4)))


def client(rng, m):
    r = rng.random()
    if r < 0.4:
        return {"kind": "crawl", "rounds": rng.randint(2, 12), "every": rng.choice([0, 0.01, 0.5]), "chunk": rng.choice([65536, 700, 97]),
                "pause": rng.choice([0, 0, 0.001, 0.02]), "delay": rng.choice([0, 0.05, 1.0])}
    if r < 0.85:
        return {"kind": "poll", "paths": paths(rng, m), "rounds": rng.randint(5, 40), "every": rng.choice([0, 0.005, 0.1]), "delay": rng.choice([0, 0.05])}
    return {"kind": rng.choice(["reset", "stall", "noread", "garbage"]), "rounds": rng.randint(1, 4), "half": rng.random() < 0.5, "delay": 0.1, "every": 0.1}


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.5)
    cur = m
    steps = [{"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS)}]
    for _ in range(rng.randint(1, 4)):
        e, cur = common.gen_edits(rng, cur, rng.randint(1, 3), common.SAFE_EDITS if rng.random() < 0.9 else None)
        steps += e
        r = {"op": "line", "text": "r"}
        if rng.random() < 0.2:
            r["faults"] = [f for f in common.write_faults(rng) if f["kind"] not in ("death", "ctrlc")]
        steps.append(r)
        if rng.random() < 0.3:
            steps.append({"op": "sleep", "dt": rng.choice([0.01, 1.0])})
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
            "clients": [client(rng, m) for _ in range(rng.randint(1, 4))], "final_quit": True, "net_cap": rng.choice([4096, 4096, 256, 60])}


def judge(j):
    res = j.res
    good: dict[int, dict[str, set]] = {}
    last_snap = {}
    for o in res["obs"]:
        snaps = []
        if o["kind"] == "started":
            snaps = [o["snap"]]
        elif o["kind"] == "rebuild":
            snaps = [o["snap"]]
        for sn in snaps:
            f = j.fresh(sn, o["proc"])
            if f["closure"]:
                for p, h in f["closure"].items():
                    good.setdefault(o["proc"], {}).setdefault(p, set()).add(h)
    overlap = 0
    published: dict[tuple, set] = {}
    for o in res["obs"]:
        if o["kind"] == "liveness" and o.get("cls") == "http-no-answer":
            raise Violation("no-answer", o["text"])
        if o["kind"] not in ("client", "served"):
            continue
        for cls, text in o["bad"]:
            raise Violation(cls, f"{text} ({'client ' + str(o.get('client')) if o['kind'] == 'client' else 'operator'} in process {o['proc']}, plan step {o['idx']})")
        who = (o["proc"], o.get("client", "op"))
        seen = o.get("seen") or {p: (200, h) for p, h in o["closure"].items()}
        for p, (st, h) in seen.items():
            if st == 200:
                published.setdefault(who, set()).add(p)
                if "/repository/" not in p:
                    ok = good.get(o["proc"], {}).get(p)
                    if ok is not None and h not in ok:
                        # documents that only other versions list are not in `ok`; only judge what some version lists
                        raise Violation("mixed-document", f"{p}: the body received is not the document of any version built in this session ({len(ok)} versions)")
            elif p in published.get(who, ()):
                raise Violation("unpublished", f"{p} answered 200 to {who} before and {st} now")
        if o["kind"] == "client":
            overlap += 1
    j.count("probe.client_observations", overlap)
    return res["digest"] if overlap and any(o["kind"] == "rebuild" for o in res["obs"]) else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
