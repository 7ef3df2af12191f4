"""C01: an aborted compilation leaves nothing behind."""

import copy
import hashlib

from ..dev import abort, common, model, world
from ..runner import Violation

TIERS = {"quick": {"runs": 160, "wall": 110}, "thorough": {"runs": 6000, "wall": 3000}}
RULE = ("one case = compilations or checks of one or two projects aborted at a seeded point (exception at the n-th executed line or call, failing "
        "allocations, recursion limit, broken project) followed by a complete build compared with a fresh process; non-trivial = at least one abort took effect")
REAL = ["sonolus frontend (visitor, context, archetypes, globals), native optimizer extensions, project/engine/level packaging, project import"]
STUB = ["nothing: builds run directly; the fault injector sits in the interpreter (line/call events, allocator hook)"]
STATE_MEASURE = "distinct (abort kind, operation, outcome, source position of the abort) combinations"
ASSUMPTIONS = ["no abort is injected inside finally blocks, exception handlers and __exit__ methods",
               "line aborts are injected only where something is called, raised or imported; between a plain assignment and the try that undoes it only an "
               "asynchronous exception could appear",
               "injection points are lines and calls of Python code; native code is aborted only by failing allocations and through its callbacks"]
setup = world.setup


def gen_abort(rng, broken_other):
    kind = rng.choice(["kbd", "kbd", "mem", "rt", "rec", "exit", "os", "nomem", "nomem", "deep", "none"])
    a = {"kind": kind, "op": rng.choice(["build", "build", "check", "collection"]), "args": rng.choice(common.ARGS), "project": rng.choice("AAB"), "reload": rng.random() < 0.2}
    a["frac"] = rng.random()
    if kind == "nomem":
        a["at"] = int(10 ** rng.uniform(0, 4))
        a["len"] = rng.choice([1, 1, 2, 5])
        a["nth"] = rng.choice([1, 1, 1, 2, 3, 4, 6])
        a["op"] = rng.choice(["build", "collection"])
    if kind == "deep":
        a["depth"] = rng.choice([20, 40, 60, 90, 130, 200])
    return a


def gen(rng, tier, i):
    big = i % 40 == 11
    a = model.gen(rng, small=rng.random() < 0.3)
    b = model.gen(rng, small=True)
    if rng.random() < 0.5:
        b = model.edit(rng, b, "break", [k for k in model.BROKEN if k.startswith("compile") or k in ("converter_raise", "converter_exit")])[0]
    trials = []
    for _ in range(rng.randint(3, 6) if not big else 2):
        trials.append({"aborts": [gen_abort(rng, b["broken"]) for _ in range(rng.choice([1, 1, 2, 3]))],
                       "final": {"mode": rng.choice(["same", "same", "rebuild", "reload"]), "args": rng.choice(common.ARGS), "project": "A",
                                 "kind": rng.choice(["engine", "collection"]) if not big else "engine"}})
    return {"A": a, "B": b, "big": big, "trials": trials}


def run(plan, ctx):
    from .d07 import pydori

    root = f"{ctx['scratch']}/abort"
    abort.mount(root, "A", pydori(ctx) if plan["big"] else model.render(plan["A"]))
    abort.mount(root, "B", model.render(plan["B"]))
    modules = {"A": "pydori" if plan["big"] else "game", "B": "game"}
    stats, states, counts, fresh = {}, set(), {}, {}
    h = hashlib.sha256()

    def child(spec):
        r, why = world._child(lambda: ("ok", abort.trial(root, ctx["tree"], spec)), 120)
        if r is None:
            return None, why
        if isinstance(r, dict):
            raise RuntimeError(r.get("harness_error"))
        return r[1], "ok"

    def bump(k):
        stats[k] = stats.get(k, 0) + 1

    took = 0
    for n, t in enumerate(plan["trials"]):
        fin = t["final"]
        fk = repr((fin["args"], fin["kind"]))
        if fk not in fresh:
            r, why = child({"modules": modules, "aborts": [], "final": dict(fin, mode="same")})
            if r is None:
                raise RuntimeError(f"fresh build died: {why}")
            fresh[fk] = r[1]
        aborts = []
        for a in t["aborts"]:
            a = dict(a)
            if a["kind"] in abort.EXC:
                ck = repr((a["project"], a["op"], a["args"]))
                if ck not in counts:
                    r, why = child({"modules": modules, "aborts": [dict(a, kind="count")], "final": dict(fin, kind="engine")})
                    counts[ck] = r[0][0][1] if r[0] else 1
                a["at"] = 1 + int(a["frac"] * max(1, counts[ck]))
            aborts.append(a)
        r, why = child({"modules": modules, "aborts": aborts, "final": fin})
        if r is None:
            bump("probe.process_died_of_injected_fault")  # a crash is what no memory means; nothing is left to observe
            h.update(b"died")
            continue
        outcomes, res = r
        for a, (o, _) in zip(aborts, outcomes, strict=False):
            bump("probe." + o.replace(" ", "_"))
            if a["kind"] != "none":
                bump(("fault." if o.startswith("aborted") else "probe.without_effect_") + {"nomem": "failing_allocations", "deep": "recursion_limit"}.get(a["kind"], "exception_" + a["kind"]))
            took += o.startswith("aborted")
            states.add(hashlib.sha1(repr((a["kind"], a["op"], o, a.get("at"))).encode()).hexdigest()[:10])
        bump("builds_compared")
        h.update(repr((outcomes, sorted(res.items()) if "error" not in res else res["error"])).encode())
        want = fresh[fk]
        if "error" in want:
            if "error" not in res:
                raise Violation("accepts", f"trial {n}: a build that fails in a fresh process ({want['error']}) succeeds after {outcomes}")
        elif "error" in res:
            raise Violation("fails-after-abort", f"trial {n}: the build after {list(zip([x['kind'] for x in aborts], outcomes))} fails ({fin['mode']}): {res['error']}\n{res['tb']}")
        elif res != want:
            d = [k for k in want if res.get(k) != want[k]]
            raise Violation("differs-after-abort", f"trial {n}: the build after {list(zip([x['kind'] for x in aborts], outcomes))} differs from a fresh process ({fin['mode']}) in {d}")
    return {"stats": stats, "digest": h.hexdigest()[:24], "states": sorted(states), "sim_time": 0.0, "case": h.hexdigest() if took else None}


def shrinks(plan):
    for i in range(len(plan["trials"])):
        if len(plan["trials"]) > 1:
            p = copy.deepcopy(plan)
            p["trials"] = [p["trials"][i]]
            yield p
    for i, t in enumerate(plan["trials"]):
        for j in range(len(t["aborts"])):
            if len(t["aborts"]) > 1:
                p = copy.deepcopy(plan)
                del p["trials"][i]["aborts"][j]
                yield p
            if t["aborts"][j]["args"]:
                p = copy.deepcopy(plan)
                p["trials"][i]["aborts"][j]["args"] = []
                yield p
    for key in "AB":
        for fn in common.MODEL_SIMPL:
            p = copy.deepcopy(plan)
            if fn(p[key]):
                model.fix_engines(p[key])
                yield p


def sample(plan, info):
    return {"trials": plan["trials"][:2], "big": plan["big"]}
