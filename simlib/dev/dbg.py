"""Debug message sites of a generated project, running the served engine until one fires, and decoding what it logs.

A site is a place in some callback of some mode that fires when the entity's `trig` (or the clock, in callbacks that
belong to no entity) equals the site's id.  Everything the check expects is computed from the site list alone.
"""

from __future__ import annotations

import re
from types import SimpleNamespace

CBS = {"play": ["preprocess", "initialize", "update_sequential", "update_parallel", "terminate", "should_spawn", "spawn_order"],
       "watch": ["preprocess", "initialize", "update_sequential", "update_parallel", "terminate", "spawn_time", "despawn_time", "update_spawn"],
       "preview": ["preprocess", "render"], "tutorial": ["navigate", "update"]}
RESULT = {"should_spawn": "True", "spawn_order": "1", "spawn_time": "1", "despawn_time": "2", "update_spawn": "1"}
FORMS = ["error", "notify", "assert", "require", "assert_true", "assert_false", "seq", "loop", "unroll", "lib_fail", "lib_note", "lib_guard", "lib_rec",
         "lib_deep", "const", "twice", "method", "branch", "chain", "chain_twice", "recur", "prop", "oper"]
CHAIN = 12
MARK = "  # @"


def camel(s):
    a, *r = s.split("_")
    return a + "".join(x.title() for x in r)


def gen_text(rng, u):
    return rng.choice([
        f"m<{u}>", f"m<{u}>", f"m<{u}>", "common failure", "Common failure", "common failure ", "common", f"first <{u}>\nsecond line", f"q ' \" \\ {{x}} %s <{u}>",
        f"é✓ <{u}>", f"  padded <{u}>", "long " * 60 + f"<{u}>", "1", "2", "3", "4", "Unknown message code: 5", f"tab\t<{u}>", "File \"x.py\", line 3, in y"])


def gen_site(rng, uniq, mode=None):
    mode = mode or rng.choice(["play", "play", "play", "watch", "watch", "preview", "tutorial"])
    form = rng.choice(FORMS)
    return {"id": uniq(), "mode": mode, "arch": rng.randint(0, 1), "cb": rng.choice(CBS[mode]), "form": form, "t": [gen_text(rng, uniq()) for _ in range(3)],
            "depth": rng.randint(1, CHAIN)}


def gen(rng, uniq, n=None):
    d = {"sites": [], "libs": {k: f"lib {k} <{uniq()}>" for k in ("fail", "note", "guard", "rec", "const")}}
    if rng.random() < 0.2:
        d["libs"]["note"] = d["libs"]["guard"]
    for _ in range(n if n is not None else rng.randint(1, 10)):
        d["sites"].append(gen_site(rng, uniq))
    return d


EDITS = ["site_add", "site_add", "site_del", "text", "text", "swap", "lib", "shuffle", "clear", "form"]


def edit(rng, d, uniq):
    k = rng.choice(EDITS)
    s = d["sites"]
    if k == "site_add" or not s:
        s.insert(rng.randint(0, len(s)), gen_site(rng, uniq))
    elif k == "site_del":
        s.remove(rng.choice(s))
    elif k == "text":
        rng.choice(s)["t"][0] = gen_text(rng, uniq())
    elif k == "swap" and len(s) > 1:
        a, b = rng.sample(s, 2)
        a["t"], b["t"] = b["t"], a["t"]
    elif k == "lib":
        d["libs"][rng.choice(sorted(d["libs"]))] = f"lib new <{uniq()}>"
    elif k == "shuffle":
        rng.shuffle(s)
    elif k == "clear":
        s.clear()
    else:
        rng.choice(s)["form"] = rng.choice(FORMS)
    return k


# ------------------------------------------------------------------ sources
def lib_src(d):
    t = {k: repr(v) for k, v in d["libs"].items()}
    return f"""from sonolus.script import debug
from sonolus.script.record import Record
MSG = {t['const']}
MSGS = ({t['const']}, {t['note']})
def fail():
    debug.error({t['fail']}){MARK}fail
def note(v, k):
    if v == k:
        debug.notify({t['note']}){MARK}note
def guard(v, k):
    assert v != k, {t['guard']}{MARK}guard
class Rec(Record):
    v: float
    k: float
    def check(self, k):
        debug.require(self.v != k, {t['rec']}){MARK}rec
    @property
    def ok(self):
        return self.v
    @property
    def looked(self):
        note(self.v, self.k){MARK}prop
        return 1
    def __add__(self, k):
        note(self.v, k){MARK}oper
        return self
def deep(v, k):
    inner(v, k){MARK}deep1
def inner(v, k):
    for _ in range(1):
        guard(v, k){MARK}deep2
def recur(n, v, k):
    if n <= 0:
        note(v, k){MARK}recend
    else:
        recur(n - 1, v, k){MARK}recur
def c{CHAIN}(v, k):
    note(v, k){MARK}c{CHAIN}
""" + "".join(f"def c{n}(v, k):\n    c{n + 1}(v, k){MARK}c{n}\n" for n in range(CHAIN - 1, 0, -1))


def site_src(s, v, ind):
    """Lines of one site; the marked line is where the message is."""
    i, f = s["id"], s["form"]
    t = [repr(x) for x in s["t"]]
    m = f"{MARK}{i}"
    body = {
        "error": [f"if {v} == {i}:", f"    debug.error({t[0]}){m}"],
        "notify": [f"if {v} == {i}:", f"    debug.notify({t[0]}){m}"],
        "assert": [f"assert {v} != {i}, {t[0]}{m}"],
        "require": [f"debug.require({v} != {i}, {t[0]}){m}"],
        "assert_true": [f"debug.assert_true({v} != {i}, {t[0]}){m}"],
        "assert_false": [f"debug.assert_false({v} == {i}, {t[0]}){m}"],
        "seq": [f"if {v} == {i}:", f"    debug.notify({t[0]}){m}a", f"    debug.notify({t[1]}){m}b", f"    debug.error({t[2]}){m}c"],
        "loop": [f"if {v} == {i}:", f"    for j{i} in range(int({v}) - {i - 2}):", f"        debug.notify({t[0]}){m}"],
        "unroll": [f"if {v} == {i}:", f"    for j{i} in (1, 2):", f"        debug.notify({t[0]}){m}"],
        "lib_fail": [f"if {v} == {i}:", f"    dbglib.fail(){m}"],
        "lib_note": [f"dbglib.note({v}, {i}){m}"],
        "lib_guard": [f"dbglib.guard({v}, {i}){m}"],
        "lib_rec": [f"dbglib.Rec({v}, {i}).check({i}){m}"],
        "lib_deep": [f"dbglib.deep({v}, {i}){m}"],
        "const": [f"if {v} == {i}:", f"    debug.error(dbglib.MSG){m}"],
        "twice": [f"dbglib.note({v}, {i}){m}a", f"dbglib.note({v}, {i}){m}b"],
        "method": [f"r{i} = dbglib.Rec({v}, {i})", f"assert r{i}.ok != {i}, {t[0]}{m}"],
        "chain": [f"dbglib.c{CHAIN + 1 - depth(s)}({v}, {i}){m}"],
        "chain_twice": [f"dbglib.c{CHAIN + 1 - depth(s)}({v}, {i}){m}a", f"dbglib.c{CHAIN + 1 - depth(s)}({v}, {i}){m}b"],
        "recur": [f"dbglib.recur({depth(s)}, {v}, {i}){m}"],
        "prop": [f"r{i} = dbglib.Rec({v}, {i}).looked{m}"],
        "oper": [f"r{i} = dbglib.Rec({v}, {i}) + {i}{m}"],
        "branch": [f"if {v} == {i}:", f"    if {v} > 0:", f"        debug.error({t[0]}){m}a", "    else:", f"        debug.error({t[1]}){m}b"],
    }[f]
    return [ind + x for x in body]


def depth(s):
    return s.get("depth", 8)


def wanted(s, d):
    """What a triggered site logs: [(text, marks of the lines that lead to it, outermost first)]."""
    i, f, t, L = s["id"], s["form"], s["t"], d["libs"]
    i = str(i)
    if f == "seq":
        return [(t[0], [i + "a"]), (t[1], [i + "b"]), (t[2] or "Error", [i + "c"])]
    if f in ("loop", "unroll"):
        return [(t[0], [i])] * 2
    if f == "branch":
        return [(t[0], [i + "a"])]
    if f == "twice":
        return [(L["note"], [i + "a", "note"]), (L["note"], [i + "b", "note"])]
    chain = [*(f"c{n}" for n in range(CHAIN + 1 - depth(s), CHAIN + 1)), "note"]
    if f == "chain":
        return [(L["note"], [i, *chain])]
    if f == "chain_twice":
        return [(L["note"], [i + "a", *chain]), (L["note"], [i + "b", *chain])]
    if f == "recur":
        return [(L["note"], [i, *["recur"] * depth(s), "recend", "note"])]
    if f in ("prop", "oper"):
        return [(L["note"], [i, f, "note"])]
    if f == "const":
        return [(L["const"], [i])]
    if f.startswith("lib_"):
        k = f[4:]
        return [(L["guard"], [i, "deep1", "deep2", "guard"])] if k == "deep" else [(L[k], [i, k])]
    return [(t[0], [i])]


def _archs(d, mode, base):
    out = []
    for a in (0, 1):
        ss = [s for s in d["sites"] if s["mode"] == mode and s["arch"] == a and s["cb"] != "update_spawn"]
        out.append(f"class Dbg{a}({base}):\n    name = 'Dbg{a}'\n    trig: float = imported()")
        by = {}
        for s in ss:
            by.setdefault(s["cb"], []).append(s)
        if mode == "watch":
            by.setdefault("spawn_time", [])
            by.setdefault("despawn_time", [])
        for cb, l in by.items():
            out.append(f"    def {cb}(self):{MARK}def{a}.{cb}")
            for s in l:
                out += site_src(s, "self.trig", "        ")
            out.append(f"        return {RESULT[cb]}" if cb in RESULT else "        pass")
    return out


def render(d):
    """-> (files, what to include in which mode)."""
    files = {"game/lib/dbglib.py": lib_src(d)}
    inc = {}
    for mode, base in (("play", "PlayArchetype"), ("watch", "WatchArchetype"), ("preview", "PreviewArchetype")):
        if not any(s["mode"] == mode for s in d["sites"]):
            continue
        L = ["from sonolus.script import debug", f"from sonolus.script.archetype import {base}, imported", "from sonolus.script.runtime import time",
             "from game.lib import dbglib", *_archs(d, mode, base), "ARCHS = [Dbg0, Dbg1]"]
        if mode == "watch":
            ss = [s for s in d["sites"] if s["mode"] == mode and s["cb"] == "update_spawn"]
            L.append(f"def extra_spawn():{MARK}defx.update_spawn")
            L.append("    t = time()")
            for s in ss:
                L += site_src(s, "t", "    ")
            L.append("    return 0")
        if mode == "preview":
            L.append("from sonolus.script.engine import PreviewMode\npreview_mode = PreviewMode(archetypes=ARCHS)")
        files[f"game/dbg_{mode}.py"] = "\n".join(L) + "\n"
        inc[mode] = True
    ss = [s for s in d["sites"] if s["mode"] == "tutorial"]
    if ss:
        L = ["from sonolus.script import debug", "from sonolus.script.runtime import time", "from sonolus.script.engine import TutorialMode", "from game.lib import dbglib"]
        for cb in ("preprocess", "navigate", "update"):
            L.append(f"def {cb}():{MARK}defx.{cb}")
            if cb != "preprocess":
                L.append("    t = time()")
            for s in ss:
                if s["cb"] == cb:
                    L += site_src(s, "t", "    ")
            L.append("    pass")
        L.append("tutorial_mode = TutorialMode(preprocess=preprocess, navigate=navigate, update=update)")
        files["game/dbg_tutorial.py"] = "\n".join(L) + "\n"
        inc["tutorial"] = True
    return files, inc


def lines_of(files):
    """mark -> (file, line)"""
    out = {}
    for p, src in files.items():
        n = 0
        for line in src.split("\n"):
            n += 1
            m = re.search(r"  # @(\S+)$", line)
            if m:
                out.setdefault((p if m.group(1)[:3] == "def" or m.group(1)[0].isdigit() else "lib", m.group(1)), (p, n))
    return out


def texts_of(d):
    out = set()
    for s in d["sites"]:
        out |= {t for t, _ in wanted(s, d)}
        out |= set(s["t"])
    return out | set(d["libs"].values())


def built_modes(args):
    only = {a[2:] for a in args if a in ("--play", "--watch", "--preview", "--tutorial")}
    return only or {"play", "watch", "preview", "tutorial"}


# ------------------------------------------------------------------ inside the simulated process
def _reals(engine_data):
    import gzip
    import json
    import struct

    from ..rt.engine import Real

    d = {k: json.loads(gzip.decompress(v)) for k, v in engine_data.items() if k.endswith("Data")}
    rom = [v[0] for v in struct.iter_unpack("<f", gzip.decompress(engine_data["rom"]))] if "rom" in engine_data else []
    pkg = SimpleNamespace(play=d.get("playData"), watch=d.get("watchData"), preview=d.get("previewData"), tutorial=d.get("tutorialData"), rom=rom, codes={})
    return {m: Real("served", pkg, m, 64) for m in ("play", "watch", "preview", "tutorial") if getattr(pkg, m)}


def fire(reals, s):
    """Runs the site's callback in the served engine with its trigger set. -> (values logged, problem)"""
    from ..runner import Violation

    r = reals.get(s["mode"])
    if r is None:
        return None, "mode not served"
    cb = camel(s["cb"])
    if s["mode"] != "preview":
        r.frame({"time": float(s["id"]), "delta": 0.0, "touches": []})
    if s["mode"] == "tutorial" or s["cb"] == "update_spawn":
        i = None
        if r.data.get(cb) is None:
            return None, f"served engine has no {cb}"
    else:
        name = f"Dbg{s['arch']}"
        if name not in r.names:
            return None, f"served engine has no archetype {name}"
        a = r.names.index(name)
        from ..rt import env

        r.n = 0
        r.arch_of.clear()
        i = r._add(a)
        for imp in r.arch[a].get("imports", []):
            if imp["name"] == "trig":
                r.env.mem["EntityData"][i * env.ENTITY[r.mode]["EntityData"][0] + imp["index"]] = float(s["id"])
        if r.arch[a].get(cb) is None:
            return None, f"archetype {name} has no {cb}"
    try:
        _, calls, _ = r.call(cb, i, 1, "mixed")
    except Violation as e:
        return None, str(e)
    return [a[0] for n, a in calls if n == "DebugLog"], None


def sweep(proc, step):
    """One `decode` step of a plan: fires some sites of the engine being served and decodes what they log."""
    from ..rng import stream

    st = proc.st
    m = st.get("built")
    proc.judge("decode")
    if m is None or not proc.engine_data.get("playData"):
        return
    rng = stream(proc.plan["seed"], "decode", st["idx"])
    d = m.get("dbg")
    seen = st.setdefault("codes_seen", {})
    reals = _reals(proc.engine_data)
    sites = list(d["sites"]) if d else []
    rng.shuffle(sites)
    fired = []
    for s in sites[: step.get("n", 6)]:
        logged, why = fire(reals, s)
        proc.s.count("probe.site_fired")
        fired.append((s["id"], logged, why))
        outs = []
        for c in logged or ():
            outs.append(ask(proc, c, rng))
            if proc.exited is not None:
                return
            seen[int(c)] = outs[-1]
        proc.note("site", site=s["id"], snap_id=st["built_snap"], logged=logged, why=why, outs=outs, args=proc.start_args)
    # codes nothing of this build can have produced, and codes of earlier builds
    probes = [rng.choice([0, -1, -7, 99999, 10 ** 12])] + rng.sample(sorted(seen), min(2, len(seen)))
    for c in probes:
        out = ask(proc, c, rng)
        if proc.exited is not None:
            return
        proc.note("probe", code=c, out=out, snap_id=st["built_snap"])


def ask(proc, code, rng):
    from . import seams

    c = int(code)
    text = rng.choice(["d", "decode", " d ", "decode  "]) + (" -- " if c < 0 else " ") + str(c)
    mark = len(proc.out)
    seams.STDIN.lines.append(text)
    if not proc.wait_prompt(text):
        return None
    proc.s.count("probe.decoded")
    return proc.text_since(mark).split("\n> ")[0]
