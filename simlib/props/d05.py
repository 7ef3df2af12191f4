"""D05: debug message codes decode to the message that was compiled."""

import copy
import re

from ..dev import common, dbg, model, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 850, "wall": 110}, "thorough": {"runs": 20000, "wall": 3000}}
RULE = ("one case = one dev session over a project with generated message sites in every mode: at many points the engine then served is executed "
        "until sites fire and the codes it logs are decoded by the same session; non-trivial = at least one message decoded after a rebuild that "
        "succeeded or failed")
REAL = [*REAL, "the decode command and the served engine data of every mode"]
STUB = [*STUB, "the Sonolus app executing the engine (simulated host)"]
ARGS = [[], [], [], ["-O0"], ["-O1"], ["-O2"], ["--runtime-checks", "notify"], ["--runtime-checks", "none"], ["--runtime-checks", "terminate"], ["--play"],
        ["--play", "--watch"], ["--tutorial", "--preview"], ["-v"], ["--gc"]]


def setup(ctx):
    world.setup(ctx)
    from ..rt import engine, env, machine  # noqa: F401


def gen(rng, tier, i):
    m = model.gen(rng, small=True)

    def u():
        return model.uniq(m)

    m["dbg"] = dbg.gen(rng, u, rng.choice([None, None, 1, 14]))
    cur = m
    steps = [{"op": "start", "cmd": "dev", "args": rng.choice(ARGS)}]

    def edits(n, kinds=None):
        nonlocal cur
        for _ in range(n):
            if kinds is None and rng.random() < 0.75:
                cur = copy.deepcopy(cur)
                k = dbg.edit(rng, cur["dbg"], lambda: model.uniq(cur))
                steps.append({"op": "edit", "model": cur, "kind": "dbg_" + k, "style": common.style(rng)})
            else:
                e, cur = common.gen_edits(rng, cur, 1, kinds or ["const", "helper", "arch_add", "arch_del", "msgs", "rename", "watch_toggle", "tutorial", "res_mod", "level_add"])
                steps.extend(e)

    def dec():
        steps.append({"op": "decode", "n": rng.choice([2, 6, 20])})

    if rng.random() < 0.8:
        dec()
    for _ in range(rng.randint(1, 4)):
        edits(rng.randint(0, 3))
        r = rng.random()
        if r < 0.3:
            edits(1, ["break"])
            if rng.random() < 0.3:
                dec()
            steps.append({"op": "line", "text": "r"})
            if rng.random() < 0.8:
                dec()
            if rng.random() < 0.6:
                edits(1, ["fix"])
                steps.append({"op": "line", "text": "r"})
        elif r < 0.4:
            steps.append({"op": "line", "text": "r", "faults": [f for f in common.write_faults(rng) if f["kind"] not in ("death", "ctrlc")]})
            dec()
            steps.append({"op": "line", "text": "r"})
        elif r < 0.5:
            steps.append({"op": "lines", "texts": rng.choice([["r", "r"], ["d 1", "r"], ["r", "h", "d 2"], ["x", "r"]])})
        elif r < 0.6:
            dec()
        else:
            steps.append({"op": "line", "text": "r"})
        if rng.random() < 0.9:
            dec()
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.3 else None, "clients": [],
            "final_quit": True, "keep_engine": True}


TRACE = re.compile(r'File "(.*)", line (\d+), in (.*)$')


def models_by_snap(plan):
    """source snapshot -> (model, rendered debug files)"""
    import hashlib

    out = {}
    for m in [plan["model"], *[s["model"] for s in plan["steps"] if s["op"] == "edit"]]:
        files = model.render(m)
        h = hashlib.sha1()
        for p, b in sorted(files.items()):
            h.update(p.encode() + b"\0" + hashlib.sha1(b).digest())
        out[h.hexdigest()[:16]] = m
    return out


def judge(j):
    plan, res = j.plan, j.res
    snaps = models_by_snap(plan)
    cache = {}
    decoded = rebuilt = 0

    def facts(snap):
        if snap not in cache:
            m = snaps[snap]
            d = m.get("dbg")
            files = dbg.render(d)[0] if d else {}
            cache[snap] = (m, d, dbg.lines_of(files), dbg.texts_of(d) if d else set())
        return cache[snap]

    every = set()
    for k in snaps:
        every |= facts(k)[3]
    unique = {t for t in every if "<" in t}
    for o in res["obs"]:
        if o["kind"] == "liveness":
            raise Violation(o.get("cls", "liveness"), f"{o['text']} (plan step {o['idx']})")
        if o["kind"] == "exit" and o.get("code") not in (0, 1, 130):
            raise Violation("exit", f"process ended with {o['code']}")
        if o["kind"] == "rebuild":
            rebuilt += 1
            if not o["ok"] and not o["faulted"] and snaps[o["snap"]]["broken"] is None:
                j.count("rebuild_failed_though_sound")
        if o["kind"] == "site":
            m, d, lines, texts = facts(o["snap_id"])
            s = next(x for x in d["sites"] if x["id"] == o["site"])
            where = f"plan step {o['idx']}: site {s['id']} ({s['form']} in {s['mode']} {s['cb']})"
            checks = "notify"
            if "--runtime-checks" in o["args"]:
                checks = o["args"][o["args"].index("--runtime-checks") + 1]
            if s["mode"] not in dbg.built_modes(o["args"]) or (s["mode"] == "tutorial" and m["broken"] == "compile_tutorial"):
                continue
            if o["why"]:
                raise Violation("not-served", f"{where}: {o['why']}", "not-served")
            want = dbg.wanted(s, d) if checks == "notify" else []
            if len(o["logged"]) != len(want):
                raise Violation("log", f"{where}: logs {o['logged']}, {len(want)} messages expected", f"log:{s['form']}")
            for c, out, (text, marks) in zip(o["logged"], o["outs"], want):
                decoded += 1
                j.count("probe.form_" + s["form"])
                if out is None:
                    raise Violation("no-answer", f"{where}: decoding {c} got no answer")
                if not (out == text + "\n" or out.endswith("\n" + text + "\n")):
                    raise Violation("wrong-message", f"{where}: logs code {c}, which stands for {text!r}; decoded as {out[-300:]!r}", "wrong-message")
                head = out[: len(out) - len(text) - 1]
                got = [x for x in (TRACE.match(l.strip()) for l in head.split("\n")) if x]
                path = [lines[(_file(s), k) if (_file(s), k) in lines else ("lib", k)] for k in marks]
                have = [(g.group(1), int(g.group(2))) for g in got]
                pos = 0
                for f, n in have:
                    if pos < len(path) and f.endswith("/" + path[pos][0]) and n == path[pos][1]:
                        pos += 1
                if pos < len(path):
                    raise Violation("trace", f"{where}: the decoded trace of code {c} lacks {path[pos][0]}:{path[pos][1]}: {head[-600:]!r}", "trace")
                ours = {(p, n) for (_, mk), (p, n) in lines.items()}
                ok = set(path) | {v for (_, mk), v in lines.items() if mk.startswith("def") and mk.endswith("." + s["cb"])}
                for f, n in have:
                    for p, k in ours - ok:
                        if f.endswith("/" + p) and n == k:
                            raise Violation("trace", f"{where}: the decoded trace of code {c} runs through {p}:{k}, which does not lead there", "trace")
        if o["kind"] == "probe":
            j.count("probe.other_codes")
            m, d, lines, texts = facts(o["snap_id"])
            out = o["out"]
            if out is None:
                raise Violation("no-answer", f"plan step {o['idx']}: decoding {o['code']} got no answer")
            if (o["code"] <= 0 or o["code"] >= 90000) and out.strip() != f"Unknown message code: {o['code']}":
                raise Violation("unknown-code", f"plan step {o['idx']}: code {o['code']} is decoded as {out[-300:]!r}", "unknown-code")
            for t in unique - texts:
                if t in out:
                    raise Violation("stale-message", f"plan step {o['idx']}: code {o['code']} is decoded as {t!r}, which the build served now does not contain", "stale-message")
    return res["digest"] if decoded and rebuilt else None


def _file(s):
    return f"game/dbg_{s['mode']}.py"


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)


def shrinks(plan):
    yield from common.shrinks(plan)
    ids = sorted({s["id"] for m in _models(plan) for s in (m.get("dbg") or {"sites": []})["sites"]})
    for i in ids:
        p = copy.deepcopy(plan)
        p.pop("_recorded", None)
        for m in _models(p):
            if m.get("dbg"):
                m["dbg"]["sites"] = [s for s in m["dbg"]["sites"] if s["id"] != i]
        yield p


def _models(plan):
    return [plan["model"], *[s["model"] for s in plan["steps"] if s["op"] == "edit"]]
