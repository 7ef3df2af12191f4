"""R03: parallel callbacks of different entities cannot interfere."""

import copy
import hashlib
import os
import random

from ..rt import engine as E
from ..rt import engprog, env, srcgen
from ..rt.weave import Weave
from ..runner import Violation
from . import r07

TIERS = {"quick": {"runs": 1300, "wall": 110}, "thorough": {"runs": 150000, "wall": 3000}}
setup = r07.setup
CAP = r07.CAP
PARALLEL = {"spawnOrder", "shouldSpawn", "initialize", "updateParallel", "terminate", "spawnTime", "despawnTime", "render"}
PHASES = {"play": ("spawn_order", "should_spawn", "initialize", "update_parallel", "terminate"), "watch": ("spawn_time", "despawn_time", "initialize", "update_parallel", "terminate"), "preview": ("render",)}
POLICIES = ("fine", "mixed", "coarse", "stall")


# ---- programs -----------------------------------------------------------------------------------------------------


class ParGen(engprog.EngGen):
    """Engines with much to do in their parallel callbacks."""

    def __init__(self, rng, mode):
        super().__init__(rng, mode, {"entities": (3, 6), "frames": (4, 14), "stmts": (2, 7), "probs": {"update_parallel": 0.95, "initialize": 0.6, "update_sequential": 0.6}, "dump": ("update_parallel",)})

    def illegal(self, src):
        """Writes, by class and callback, of memory the callback may not write."""
        r = self.r
        spots = []
        for node in src:
            if isinstance(node, str) or not node[0].startswith("class A"):
                continue
            a = next((a for a in self.arch if node[0].startswith(f"class {a['name']}(")), None)
            for d in node[1]:
                if a and not a["abstract"] and isinstance(d, list) and d[0].startswith("def "):
                    cb = d[0][4:].split("(")[0]
                    if cb in engprog.CALLBACKS[self.mode]:
                        spots.append((a, cb))
        out = []
        for _ in range(4):
            if not spots:
                break
            a, cb = r.choice(spots)
            paths = [(p, t) for p, t, w in self.scope(a, cb).paths if not w and (p.startswith(("L.", "D.")) or p.startswith("self.") and p[5:] in {f[0] for f in a["all"] if not engprog.isref(f)})]
            if r.random() < 0.4:
                # memory of another entity, or of all entities of an archetype
                b = r.choice([x for x in self.arch if not x["abstract"]])
                pre, seq = cb == "preprocess", cb in engprog.SEQ[self.mode]
                paths = [x for x in self.seen(f"{b['name']}.at(self.index)", b["name"], pre, seq) if not x[2] and x[0] and x[0].rsplit(".", 1)[1] not in b["props"]]
                if self.mode in ("play", "watch") and not pre:
                    of = r.choice((f"{b['name']}.at(self.index).entity_life", "self.entity_life", f"{b['name']}.archetype_life", "self.archetype_life"))
                    paths += [(f"{of}.{r.choice(engprog.LIFE)}", "i", False), (r.choice(("self", f"{b['name']}.at(0)")) + ".entity_score_multiplier", "f", False)]
            if not paths:
                continue
            p, t, *_ = r.choice(paths)
            lines = self.wrong(p, t)
            if lines:
                out.append([a["name"], cb, self.wrapped(lines)])
        return out

    def wrong(self, p, t, d=0):
        """Lines that certainly write (a part of) the place."""
        r = self.r
        v = f"wv{d}"
        if t in ("i", "f"):
            return r.choice(([f"{p} = 3"], [f"{p} += 1"], [f"{p}, {v} = 1, 2"], [f"{p} = {p}"], [f"{v} = {p} = 4"], [f"{p} *= self.index"], [[f"for {v} in range(2):", [f"{p} = {v}"]]]))
        if t[0] == srcgen.REC:
            if not self.lib.recs[t[1]]:
                return None
            f, ft = r.choice(self.lib.recs[t[1]])
            k = r.random()
            if k < 0.15:
                return [f"{p} = copy({p})"] if "." in p else None
            if k < 0.3:
                return [f"{p} @= copy({p})"]
            if k < 0.5:
                inner = self.wrong(f"{v}.{f}", ft, d + 1)
                return inner and [f"{v} = {p}", *inner]
            return self.wrong(f"{p}.{f}", ft, d + 1)
        if t[0] == srcgen.ARR:
            if not t[2]:
                return None
            k = r.random()
            if k < 0.2:
                return [f"{p}.swap(0, {t[2] - 1})"] if t[2] > 1 else None
            if k < 0.35:
                return [f"{p} @= copy({p})"]
            if k < 0.5 and t[1] not in ("i", "f"):
                inner = self.wrong(v, t[1], d + 1)
                return inner and [[f"for {v} in {p}:", inner]] if not inner[0].startswith((v + " =", v + ",")) else None
            return self.wrong(f"{p}[{r.choice((0, t[2] - 1, f'self.index % {t[2]}'))}]", t[1], d + 1)
        if t[0] == "var":
            return [r.choice((f"{p}.append(1)", f"{p}.clear()", f"{p}.pop()", f"{p}.insert(0, 2)", f"{p}.set_add(3)", f"{p}.remove(1)"))]
        if t[0] == "set":
            return [r.choice((f"{p}.add(1)", f"{p}.clear()", f"{p}.remove(2)"))]
        if t[0] == "map":
            return [r.choice((f"{p}[1] = 2", f"{p}.clear()", f"del {p}[1]"))]
        return None

    def wrapped(self, lines):
        r = self.r
        k = r.random()
        if k < 0.4:
            return lines
        if k < 0.6:
            return [[f"if self.index > {r.randrange(4)}:", lines]]
        if k < 0.7:
            return [["for wi in range(self.index):", lines]]
        if k < 0.8:
            return [["if self.index == 0:", ["pass"]], ["elif self.index < 5:", lines]]
        if k < 0.9:
            return [["def wf():", lines], "wf()"]
        return [["match self.index:", [["case 1 | 2:", lines], ["case _:", ["pass"]]]]]


def with_illegal(src, ill):
    cls, cb, lines = ill
    src = copy.deepcopy(src)
    for node in src:
        if not isinstance(node, str) and node[0].startswith(f"class {cls}("):
            for d in node[1]:
                if isinstance(d, list) and d[0].startswith(f"def {cb}("):
                    d[1][0:0] = copy.deepcopy(lines)
                    return src
    return None


def gen(rng, tier, i):
    mode = rng.choice(("play",) * 3 + ("watch",) * 2 + ("preview",))
    g = ParGen(rng, mode)
    src = g.program()
    return {"mode": mode, "src": src, "frames": g.frames(), "drop": [], "level": rng.choice(E.LEVELS), "checks": "none" if rng.random() < 0.8 else "terminate", "illegal": g.illegal(src),
            "draws": rng.randrange(1 << 30), "style": "uniform", "dirty": rng.randrange(1, 1 << 30), "threads": rng.choice((2, 2, 3, 4)), "policy": rng.choice(POLICIES), "runs": True}


# ---- running ------------------------------------------------------------------------------------------------------


def weave_driver(base):
    class Woven(base):
        """The engine's main loop with the callbacks of every parallel phase interleaved."""

        phase = 0
        shots = 0

        def many(self, cb, idxs):
            idxs = [i for i in idxs if self.o.method(i, cb) is not None]
            if not idxs or not self.reals:
                return super().many(cb, idxs)
            self.phase += 1
            seeds = {}
            for i in idxs:
                self.step += 1
                seeds[i] = self.plan["draws"] * 1_000_003 + self.step
            want = {i: self.o.call(cb, i, seeds[i], self.style) for i in idxs}
            got = {i: [] for i in idxs}
            for r in self.reals:
                if r.threads is None:
                    for i in idxs:
                        got[i].append((r, r.call(cb, i, seeds[i], self.style)))
                    continue
                order = list(idxs)
                rr = random.Random(self.plan["draws"] * 31 + self.phase)
                rr.shuffle(order)
                lanes = [[] for _ in r.threads]
                for k, i in enumerate(order):
                    lanes[rr.randrange(len(lanes)) if rr.random() < 0.3 else k % len(lanes)].append(i)
                lanes = [(t, ln) for t, ln in zip(r.threads, lanes) if ln]
                w = Weave(self.plan["draws"] * 17 + self.phase, self.plan["policy"], {env.BLOCKS[self.mode]["TemporaryMemory"][0]})
                res = w.run([[lambda gate, i=i, t=t: (i, r.call(cb, i, seeds[i], self.style, temp=t, gate=gate)) for i in ln] for t, ln in lanes])
                for lane in res:
                    for i, x in lane:
                        got[i].append((r, x))
                self.stats["fault.thread_switch"] = self.stats.get("fault.thread_switch", 0) + w.switches
                self.stats["probe.interleaved_steps"] = self.stats.get("probe.interleaved_steps", 0) + w.points
                self.shots = (self.shots * 1_000_003 + w.switches * 31 + w.points) % (1 << 61)
            a, b = self.reals
            for i in idxs:
                if not b.wrote.get((i, cb), set()) <= a.wrote.get((i, cb), set()):
                    extra = sorted(b.wrote[i, cb] - a.wrote.get((i, cb), set()) - self.temps())
                    if extra:
                        raise Violation("writes", f"{self.where(cb, i)} at level {b.name} writes block {extra[0][0]}[{extra[0][1]}], which its source does not write", "writes")
            d = env.diff(a.env.snapshot(), b.env.snapshot())
            if d:
                k, j, x, y = d[0]
                raise Violation("memory", f"{self.where(cb, idxs[0])} and others, interleaved at level {b.name}: {k}[{j}] is {y}, one after the other it is {x}", "memory")
            return [self.settle(cb, i, want[i], got[i]) for i in idxs]

        def temps(self):
            t = env.BLOCKS[self.mode]["TemporaryMemory"][0]
            return {(t, j) for j in range(4096)}

    return Woven


WOVEN = {k: weave_driver(v) for k, v in E.MODES.items()}


def build(mode, rm, level, checks):
    return E.package({mode: rm}, level, checks)


def simulate(plan, ctx, stats):
    text = srcgen.text(plan["src"])
    if srcgen.free_names(srcgen.parse(text), r07.known()):
        raise E.NotACase("free names")
    om = E.oracle_module(text, plan["checks"])
    if any(not hasattr(om, n) for n in ("ARCHETYPES", "LEVEL")):
        raise E.NotACase("incomplete")
    if plan["runs"]:
        oracle = E.Oracle(om, plan["mode"], plan["checks"], level=om.LEVEL)
        E.MODES[plan["mode"]](oracle, [], plan, {}, CAP, plan["style"]).run()
    try:
        rm = E.real_module(text, ctx["scratch"])
    except Exception as e:  # noqa: BLE001
        raise Violation("import", f"a valid source is rejected: {type(e).__name__}: {str(e)[:200]}", f"import:{type(e).__name__}") from e
    reals = []
    try:
        lv = E.package_level(rm)
        for l in ("minimal", plan["level"]):
            try:
                pkg = build(plan["mode"], rm, l, plan["checks"])
            except Exception as e:  # noqa: BLE001
                c = e
                while c.__cause__ is not None:
                    c = c.__cause__
                raise Violation("compile", f"a valid program does not compile at level {l}: {type(c).__name__}: {str(c)[:300]}", f"compile:{type(c).__name__}:{r07.norm(str(c))}") from e
            s = E.Real(l, pkg, plan["mode"], CAP, level=lv)
            s.dirty = plan["dirty"]
            s.wrote = {}
            s.threads = None
            reals.append(s)
    finally:
        E.drop_module(rm)
    for ill in plan["illegal"]:
        src = with_illegal(plan["src"], ill)
        if src is None:
            continue
        t = srcgen.text(src)
        bm = E.real_module(t, ctx["scratch"])
        try:
            build(plan["mode"], bm, plan["level"], plan["checks"])
        except Exception:  # noqa: BLE001
            stats["fault.forbidden_write_rejected"] = stats.get("fault.forbidden_write_rejected", 0) + 1
        else:
            raise Violation("accepted", f"{ill[0]}.{ill[1]} writes memory that callback may not write ({' / '.join(srcgen.render(ill[2]))}) and compiles at level {plan['level']}", "accepted")
        finally:
            E.drop_module(bm)
    if not plan["runs"]:
        return None, reals
    reals[1].threads = [[0.0] * 4096 for _ in range(plan["threads"])]
    oracle = E.Oracle(om, plan["mode"], plan["checks"], level=om.LEVEL)
    drv = WOVEN[plan["mode"]](oracle, reals, plan, stats, CAP, plan["style"])
    drv.run()
    return drv, reals


def run(plan, ctx):
    ctx.setdefault("scratch", os.environ.get("SIM_SCRATCH", "/dev/shm"))
    plan = copy.deepcopy(plan)
    stats = {}
    try:
        drv, reals = simulate(plan, ctx, stats)
    except E.NotACase as e:
        if os.environ.get("SIM_VERBOSE"):
            print("not a case:", e)
        return {"stats": {"probe.not_a_case": 1, "why." + str(e).split(":")[0][:30]: 1}, "digest": "", "states": [], "sim_time": 0.0, "case": None}
    if drv is None:
        return {"stats": stats, "digest": "", "states": [], "sim_time": 0.0, "case": None}
    dg = hashlib.sha256(repr((drv.trace, drv.shots)).encode()).hexdigest()
    used = stats.get("fault.thread_switch", 0) + stats.get("fault.forbidden_write_rejected", 0)
    return {"stats": stats, "digest": dg[:24], "states": [f"{drv.shots}"], "sim_time": plan["frames"][-1]["time"] if plan["frames"] else 0.0, "case": dg if used else None}


def reduce(plan, test, over):
    cur = plan
    for ill in plan["illegal"]:
        c = dict(cur, illegal=[ill], runs=False)
        if test(c):
            cur = c
            break
    else:
        c = dict(cur, illegal=[])
        if test(c):
            cur = c
        for c in (dict(cur, threads=2), dict(cur, policy="coarse")):
            if test(c):
                cur = c
    if cur["runs"]:
        r07.shorten(cur, test, over)
    else:
        srcgen.reduce_nodes(cur["src"], lambda s: test(dict(cur, src=s)), over)


RULE = "one case = one random engine whose parallel phases run interleaved on several engine threads, and the same engine with forbidden writes planted; non-trivial = threads were switched inside callbacks or a forbidden write was tried"
STATE_MEASURE = "distinct interleavings (hash of the switch and step counts of every phase of a run)"
REAL = r07.REAL
STUB = r07.STUB
ASSUMPTIONS = ["Single reads, writes and host calls of the engine are atomic; every engine thread has temporary memory of its own."]


def sample(plan, info):
    return {"source": srcgen.text(plan["src"])[:1500], "threads": plan["threads"], "policy": plan["policy"]}
