"""Runs one generated engine in lockstep: its Python source under the oracle, and its packaged builds in the simulated host.

A source module defines ARCHETYPES (the classes of the mode, in order), optionally LEVEL (level entities), and for the
other modes UPDATE_SPAWN or PREPROCESS / NAVIGATE / UPDATE.
"""

from __future__ import annotations

import ast
import gzip
import importlib.util
import json
import linecache
import random
import struct
import sys
from pathlib import Path
from types import SimpleNamespace

from ..runner import Violation
from . import env, host, stub
from .machine import Fault, Machine, StepLimit, compile_nodes, run_node

CB = {"preprocess": "preprocess", "spawnOrder": "spawn_order", "shouldSpawn": "should_spawn", "initialize": "initialize", "updateSequential": "update_sequential",
      "touch": "touch", "updateParallel": "update_parallel", "terminate": "terminate", "spawnTime": "spawn_time", "despawnTime": "despawn_time", "render": "render"}
RESULT = {"spawnOrder", "shouldSpawn", "spawnTime", "despawnTime", "updateSpawn"}
ORDERED = {"preprocess", "spawnOrder", "updateSequential", "touch"}
LEVELS = ("minimal", "fast", "standard")
ANY = object()  # a message of the library's own wording


class NotACase(Exception):
    pass


# ---- sources -----------------------------------------------------------------------------------------------------

_n = [0]


def oracle_module(src, checks):
    """Executes the source against the oracle's classes."""
    ns = {"__name__": f"oracle_src_{_n[0]}", "__annotations__": {}}
    for n in stub.__all__:
        ns[n] = getattr(stub, n)
    mod = type(sys)(ns["__name__"])
    mod.__dict__.update(ns)
    sys.modules[ns["__name__"]] = mod
    try:
        tree = ast.parse(src)
        for w in ast.walk(tree):
            if isinstance(w, ast.While):  # a loop that never ends is not a case
                w.body.insert(0, ast.Expr(ast.Call(ast.Name("_loop_", ast.Load()), [], [])))
        mod.__dict__["_loop_"] = stub.loop
        exec(compile(ast.fix_missing_locations(tree), "<oracle>", "exec", dont_inherit=True), mod.__dict__)  # noqa: S102
    except (SyntaxError, NameError, TypeError, ValueError, stub.Invalid, stub.Terminate, AttributeError, KeyError, IndexError) as e:
        raise NotACase(f"module: {type(e).__name__}: {e}") from e
    finally:
        del sys.modules[ns["__name__"]]
    return mod


def real_module(src, scratch):
    """Imports the source as a file, as a project would."""
    _n[0] += 1
    name = f"simsrc_{_n[0]}"
    path = Path(scratch) / f"{name}.py"
    path.write_text("from simlib.rt.api import *\n\n" + src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def drop_module(mod):
    sys.modules.pop(mod.__name__, None)
    linecache.cache.pop(mod.__file__, None)
    Path(mod.__file__).unlink(missing_ok=True)


def level_of(name):
    from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES

    return dict(zip(LEVELS, (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)))[name]


def package(mods, level, checks):
    """The real build: source modules by mode -> packaged engine and the session's message codes."""
    from sonolus.build.engine import package_engine
    from sonolus.script.engine import EngineData, PlayMode, PreviewMode, TutorialMode, WatchMode, empty_play_mode, empty_preview_mode, empty_tutorial_mode, empty_watch_mode
    from sonolus.script.internal.context import ProjectContextState, RuntimeChecks
    from sonolus.script.project import BuildConfig
    from sonolus.script.ui import UiConfig

    cfg = BuildConfig(passes=level_of(level), runtime_checks={"none": RuntimeChecks.NONE, "terminate": RuntimeChecks.TERMINATE, "notify": RuntimeChecks.NOTIFY_AND_TERMINATE}[checks],
                      build_play="play" in mods, build_watch="watch" in mods, build_preview="preview" in mods, build_tutorial="tutorial" in mods)
    st = ProjectContextState.from_build_config(cfg)

    def opt(m, **names):
        return {k: getattr(m, n) for k, n in names.items() if hasattr(m, n)}

    play = mods.get("play")
    watch = mods.get("watch")
    preview = mods.get("preview")
    tutorial = mods.get("tutorial")
    data = EngineData(
        ui=UiConfig(),
        play=PlayMode(archetypes=list(play.ARCHETYPES), **opt(play, skin="SKIN", effects="EFFECTS", particles="PARTICLES")) if play else empty_play_mode(),
        watch=WatchMode(archetypes=list(getattr(watch, "WATCH_ARCHETYPES", None) or watch.ARCHETYPES), update_spawn=watch.UPDATE_SPAWN, **opt(watch, skin="SKIN", effects="EFFECTS", particles="PARTICLES")) if watch else empty_watch_mode(),
        preview=PreviewMode(archetypes=list(preview.ARCHETYPES), **opt(preview, skin="SKIN")) if preview else empty_preview_mode(),
        tutorial=TutorialMode(preprocess=tutorial.PREPROCESS, navigate=tutorial.NAVIGATE, update=tutorial.UPDATE, **opt(tutorial, skin="SKIN", effects="EFFECTS", particles="PARTICLES")) if tutorial else empty_tutorial_mode(),
    )
    out = package_engine(data, cfg, st)
    rom = gzip.decompress(out.rom)
    un = lambda b: json.loads(gzip.decompress(b))  # noqa: E731
    return SimpleNamespace(play=un(out.play_data), watch=un(out.watch_data), preview=un(out.preview_data), tutorial=un(out.tutorial_data),
                           rom=[v[0] for v in struct.iter_unpack("<f", rom)], codes=dict(st.debug_str_mappings), config=un(out.configuration))


def package_level(mod):
    from sonolus.build.level import package_level_data
    from sonolus.script.level import LevelData

    return json.loads(gzip.decompress(package_level_data(LevelData(bgm_offset=0, entities=list(mod.LEVEL)))))


# ---- sides --------------------------------------------------------------------------------------------------------


class Real:
    """One packaged build in the simulated host."""

    def __init__(self, name, pkg, mode, cap, streams=None, level=None):
        self.name, self.pkg, self.mode = name, pkg, mode
        self.data = getattr(pkg, mode)
        self.arch = self.data.get("archetypes", [])
        self.names = [a["name"] for a in self.arch]
        self.fns = compile_nodes(self.data["nodes"])
        self.env = env.Env(mode, cap, rom=pkg.rom)
        self.streams = streams if streams is not None else host.Streams()
        self.decode = {v: k for k, v in pkg.codes.items()}
        self.level = level
        self.n = 0
        self.arch_of = []
        self.steps = 0
        self.time = self.delta = 0.0
        self.dirty = None
        self.hook = None
        self.host_class = host.Host
        self.wrote = None  # (entity, callback) -> places its last run wrote, when asked for

    def load(self, drop):
        ents = self.level["entities"]
        names = {e["name"]: i for i, e in enumerate(ents)}
        st = env.ENTITY[self.mode]["EntityData"][0]
        for i, e in enumerate(ents):
            if e["archetype"] not in self.names:
                raise Violation("level", f"level entity {i} names archetype {e['archetype']!r}, which the packaged engine does not have", "level")
            a = self.names.index(e["archetype"])
            self._add(a)
            vals = {d["name"]: float(names[d["ref"]]) if "ref" in d else float(d["value"]) for d in e["data"]}
            for imp in self.arch[a].get("imports", []):
                if (i, imp["name"]) in drop:
                    v = float(imp.get("def") or 0)
                else:
                    v = vals.get(imp["name"], float(imp.get("def") or 0))
                self.env.mem["EntityData"][i * st + imp["index"]] = v

    def _add(self, a):
        i = self.n
        st = env.ENTITY[self.mode]["EntityInfo"][0]
        info = self.env.mem["EntityInfo"]
        info[i * st] = float(i)
        info[i * st + 1] = float(a)
        self.arch_of.append(a)
        self.n += 1
        return i

    def spawn(self, s):
        a, data = s
        i = self._add(a)
        st = env.ENTITY[self.mode]["EntityMemory"][0]
        self.env.mem["EntityMemory"][i * st: i * st + st] = list(data) + [0.0] * (st - len(data))

    def state(self, i, s):
        st = env.ENTITY[self.mode]["EntityInfo"][0]
        if st > 2:
            self.env.mem["EntityInfo"][i * st + 2] = float(s)

    def despawned(self, i):
        return self.env.mem["EntityDespawn"][i] != 0 if "EntityDespawn" in self.env.mem else False

    def order(self, i, cb):
        c = self.arch[self.arch_of[i]].get(cb)
        return None if c is None else c.get("order", 0)

    def frame(self, f):
        m = self.env.mem["RuntimeUpdate"]
        self.time, self.delta = f["time"], f["delta"]
        m[0], m[1] = f["time"], f["delta"]
        if self.mode == "play":
            m[2] = f["time"]
            m[3] = float(len(f["touches"]))
            t = self.env.mem["RuntimeTouchArray"]
            for k, x in enumerate(f["touches"]):
                t[k * 15: k * 15 + 15] = x
        elif self.mode == "watch":
            m[2] = f["time"]
            m[3] = float(f.get("skip", 0))
        elif self.mode == "tutorial":
            m[2] = float(f.get("navigation", 0))

    def call(self, cb, i, seed, style, temp=None, gate=None):
        """Runs one callback; returns (value, calls, spawned)."""
        root = self.arch[self.arch_of[i]].get(cb) if i is not None else self.data.get(cb)
        if root is None:
            return None, [], []
        root = root["index"] if isinstance(root, dict) else root
        h = self.host_class(host.Draws(seed, style), self.streams)
        if self.dirty:
            t = self.env.mem["TemporaryMemory"] if temp is None else temp
            r = random.Random(seed ^ self.dirty)
            for k in range(160):
                t[k] = r.choice((-1.0, 0.0, 1.0, 7.5, 1e18, 3.0))
        m = Machine(self.env.view(i, cb, temp), env.writable(self.mode, cb), h, 60000)
        m.gate = gate
        if self.wrote is not None:
            m.wrote = self.wrote[i, cb] = set()
        try:
            v = run_node(self.fns[root], m)
        except Fault as e:
            raise Violation("fault", f"level {self.name}: {cb} of entity {i}: {e}", f"fault:{e.kind}") from None
        except StepLimit:
            raise Violation("hang", f"level {self.name}: {cb} of entity {i} does not end", "hang") from None
        self.steps += m.steps
        out, spawned = [], []
        for n, a in h.calls:
            if n == "StreamSet":
                continue
            if n == "Spawn":
                k = int(a[0])
                if not 0 <= k < len(self.names) or k != a[0]:
                    raise Violation("spawn", f"level {self.name}: {cb} of entity {i} spawns archetype {a[0]}", "spawn")
                spawned.append((k, a[1:]))
                out.append(("Spawn", (self.names[k], tuple(a[1:]))))
            elif n == "ExportValue":
                ex = self.arch[self.arch_of[i]].get("exports", [])
                if not (0 <= a[0] < len(ex)):
                    raise Violation("export", f"level {self.name}: {cb} of entity {i} exports value {a[0]} of {len(ex)}", "export")
                out.append(("Export", (ex[int(a[0])], a[1])))
            else:
                out.append((n, a))
        return v, out, spawned


class Oracle:
    def __init__(self, mod, mode, checks, streams=None, level=None):
        self.name = "source"
        self.mod, self.mode, self.checks = mod, mode, checks
        self.w = stub.World(mode, host.Draws(0), streams if streams is not None else {})
        self.w.notify = checks == "notify"
        self.w.archetypes = self.arch = list(getattr(mod, "WATCH_ARCHETYPES", None) or mod.ARCHETYPES) if mode == "watch" else list(getattr(mod, "ARCHETYPES", ()))
        self.names = [a.name for a in self.arch]
        self.level = level or []
        self.n = 0

    def activate(self):
        stub.set_world(self.w)
        stub.CHECKS[0] = self.checks != "none"

    def load(self, drop):
        self.activate()
        pos = {id(e): i for i, e in enumerate(self.level)}
        for i, e in enumerate(self.level):
            cls = next((a for a in self.arch if a.name == type(e).name), None)
            if cls is None:
                raise NotACase("level")
            vals = {}
            for n, (storage, _, key, default, _) in cls._fields_.items():
                t = cls._type(n)
                vals[n] = stub.zero(t)
                if storage != "imported":
                    continue
                src = e._level_.get(n)
                v = stub.zero(t) if src is None else stub.clone(src)
                stub.resolve_refs(v, pos)
                dead = [k for k in stub.flat_keys(t, key) if (i, k) in drop]
                if dead:
                    fl = [0.0 if (i, k) in drop and default is None else default if (i, k) in drop else x for k, x in zip(stub.flat_keys(t, key), stub.flat(v))]
                    v = stub.build(t, fl)
                vals[n] = v
            self.w.entities.append(SimpleNamespace(cls=cls, f=vals, despawn=0, state=0))
            self.n += 1

    def spawn(self, s):
        cls, vals = s
        f = {n: stub.zero(cls._type(n)) for n in cls._fields_}
        f.update(vals)
        self.w.entities.append(SimpleNamespace(cls=cls, f=f, despawn=0, state=0))
        self.n += 1

    def state(self, i, s):
        self.w.entities[i].state = s

    def despawned(self, i):
        return bool(self.w.entities[i].despawn)

    def method(self, i, cb):
        return self.w.entities[i].cls._cb(CB[cb])

    def order(self, i, cb):
        m = self.method(i, cb)
        return None if m is None else getattr(m, "_order_", 0)

    def frame(self, f):
        w = self.w
        w.time, w.delta = f["time"], f["delta"]
        w.skip, w.navigation = f.get("skip", 0), f.get("navigation", 0)
        w.touches = stub.touch_list(f.get("touches", []))

    def call(self, cb, i, seed, style):
        self.activate()
        w = self.w
        w.draws = host.Draws(seed, style)
        w.calls, w.spawned, w.cb = [], [], cb
        stub.LOOPS[0] = 0
        if i is not None:
            m = self.method(i, cb)
            if m is None:
                return None, [], []
            args = (w.entities[i].cls._view(i, True),)
        else:
            m, args = getattr(self.mod, {"updateSpawn": "UPDATE_SPAWN", "preprocess": "PREPROCESS", "navigate": "NAVIGATE", "update": "UPDATE"}[cb]), ()
        try:
            v = m(*args)
        except stub.Terminate as t:
            v = 0
            if t.kind != "terminate" and w.notify:
                w.call("Message", t.message if t.message is not None else ANY)
                w.call("DebugPause")
        except AssertionError as e:
            if self.checks == "none":
                raise NotACase("violated assertion") from e
            v = 0
            if w.notify:
                w.call("Message", str(e) or "Assertion failed")
                w.call("DebugPause")
        except stub.Invalid as e:
            raise NotACase(str(e)) from e
        except (NameError, TypeError, ZeroDivisionError, OverflowError, ValueError, RecursionError, KeyError, IndexError, AttributeError) as e:
            raise NotACase(f"{type(e).__name__}: {e}") from e
        for n, a in w.calls:
            for x in a:
                if isinstance(x, complex) or isinstance(x, float) and (x != x or abs(x) > 2**52):
                    raise NotACase("number out of bounds")
        return v, w.calls, w.spawned


def same_call(o, r, side):
    if o[0] == "Message":
        if r[0] != "DebugLog":
            return False
        text = side.decode.get(r[1][0])
        return text is not None and (o[1][0] is ANY or text.split("\n")[-1] == o[1][0])
    if o[0] != r[0]:
        return False
    return same_args(o[1], r[1])


def same_args(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if not isinstance(y, tuple) or not same_args(x, y):
                return False
        elif isinstance(x, str):
            if x != y:
                return False
        elif not env.same(float(x), float(y)):
            return False
    return True


class Lockstep:
    """The host's main loop over the oracle and every packaged build at once."""

    def __init__(self, oracle, reals, plan, stats, cap, style="mixed"):
        self.o, self.reals, self.plan, self.stats, self.cap, self.style = oracle, reals, plan, stats, cap, style
        self.sides = [oracle, *reals]
        self.state = []
        self.step = 0
        self.trace = []
        self.queue_spawn = []
        self.full = False
        self.watchdog = 0

    def each(self, fn):
        return [fn(s) for s in self.sides]

    def where(self, cb, i):
        return f"frame {self.frame_no} {cb}" + (f" of entity {i} ({self.o.w.entities[i].cls.name})" if i is not None else "")

    frame_no = -1

    def call(self, cb, i):
        self.step += 1
        seed = self.plan["draws"] * 1_000_003 + self.step
        want = self.o.call(cb, i, seed, self.style)
        return self.settle(cb, i, want, [(r, r.call(cb, i, seed, self.style)) for r in self.reals])

    def many(self, cb, idxs):
        """Callbacks of one phase, of different entities, that the engine may run in parallel."""
        return [self.call(cb, i) for i in idxs]

    def settle(self, cb, i, want, got):
        v, calls, spawned = want
        st = self.stats
        st["callbacks"] = st.get("callbacks", 0) + 1
        st["host_calls"] = st.get("host_calls", 0) + len(calls)
        for n, _ in calls:
            if n in ("Random", "RandomInteger"):
                st["fault.random_draw"] = st.get("fault.random_draw", 0) + 1
            elif n == "Message":
                st["probe.messages"] = st.get("probe.messages", 0) + 1
        self.trace.append((cb, i, repr(v) if cb in RESULT else None, [(n, tuple("any" if x is ANY else x for x in a)) for n, a in calls]))
        for r, (rv, rc, rs) in got:
            if len(calls) != len(rc) or not all(same_call(a, b, r) for a, b in zip(calls, rc)):
                j = next((j for j, (a, b) in enumerate(zip(calls, rc)) if not same_call(a, b, r)), min(len(calls), len(rc)))
                raise Violation("calls", f"{self.where(cb, i)} at level {r.name}: effect {j} is {rc[j:j + 1]} instead of {calls[j:j + 1]} ({len(rc)} effects, the source has {len(calls)})", f"calls:{r.name}")
            if cb in RESULT and rv is not None and not env.same(float(v), rv) or (cb in RESULT and rv is None and v is not None):
                if not (cb == "shouldSpawn" and rv is not None and bool(v) == bool(rv)):
                    raise Violation("result", f"{self.where(cb, i)} at level {r.name}: returns {rv} instead of {v}", f"result:{r.name}")
            if i is not None and self.o.despawned(i) != r.despawned(i):
                raise Violation("despawn", f"{self.where(cb, i)} at level {r.name}: despawn is {r.despawned(i)} instead of {self.o.despawned(i)}", "despawn")
        if spawned and self.mode != "play":
            raise NotACase("spawn outside play")
        for k, s in enumerate(spawned):
            if len(self.state) >= self.cap:
                self.full = True
                break
            self.o.spawn(s)
            for r, (_, _, rs) in got:
                r.spawn(rs[k])
            self.state.append(0)
            self.queue_spawn.append(len(self.state) - 1)
            self.set_state(len(self.state) - 1, 0)
            st["fault.entity_spawned"] = st.get("fault.entity_spawned", 0) + 1
        return v

    def set_state(self, i, s):
        self.state[i] = s
        for x in self.sides:
            x.state(i, s)

    def load(self):
        drop = {(i, k) for i, k in self.plan.get("drop", [])}
        self.each(lambda s: s.load(drop))
        for r in self.reals:
            if r.n != self.o.n:
                raise Violation("level", f"packaged level has {r.n} entities, the source {self.o.n}", "level")
            for i in range(r.n):
                if r.names[r.arch_of[i]] != self.o.w.entities[i].cls.name:
                    raise Violation("level", f"entity {i} is a {r.names[r.arch_of[i]]} in the packaged level, a {self.o.w.entities[i].cls.name} in the source", "level")
            for a, c in zip(r.arch, self.o.arch):
                if a["name"] != c.name or bool(a.get("hasInput")) != bool(c.is_scored):
                    raise Violation("level", f"{c.name} is packaged as {a['name']} with hasInput {a.get('hasInput')}, its source says {c.is_scored}", "scored")
        self.state = [0] * self.o.n
        for i in range(self.o.n):
            self.set_state(i, 0)

    def orders(self, cb, idxs):
        """Entities that have this callback, by order then index; the packaged order must be the declared one."""
        out = []
        for i in idxs:
            o = self.o.order(i, cb)
            for r in self.reals:
                ro = r.order(i, cb)
                if o is None and ro is not None:
                    raise Violation("order", f"{r.names[r.arch_of[i]]} has a {cb} callback its source does not define", "order")
                if ro is not None and o != ro:
                    raise Violation("order", f"{r.names[r.arch_of[i]]}.{cb} has order {ro} instead of {o}", "order")
            if o is not None:
                out.append((o, i))
        out.sort()
        return [i for _, i in out]

    def fault(self, k, n=1):
        self.stats["fault." + k] = self.stats.get("fault." + k, 0) + n


class Play(Lockstep):
    mode = "play"

    def run(self):
        frames = self.plan["frames"]
        self.load()
        self.set_frame(dict(time=-1.0, delta=0.0, touches=[]))
        for i in self.orders("preprocess", range(len(self.state))):
            self.call("preprocess", i)
        keyed = []
        have = self.orders("spawnOrder", [i for i in range(len(self.state)) if i not in self.queue_spawn])
        for i, v in zip(have, self.many("spawnOrder", have)):
            keyed.append((float(v or 0), i))
        keyed += [(0.0, i) for i in range(len(self.state)) if i not in have and i not in self.queue_spawn]
        keyed.sort()
        waiting = [i for _, i in keyed]
        active = []
        for n, f in enumerate(frames):
            if self.full:
                break
            self.frame_no = n
            self.set_frame(f)
            fresh, self.queue_spawn = self.queue_spawn, []
            new = list(fresh)
            while waiting:
                i = waiting[0]
                v = self.call("shouldSpawn", i) if self.o.method(i, "shouldSpawn") else True
                if not v:
                    break
                waiting.pop(0)
                new.append(i)
            for i in new:
                self.set_state(i, 1)
                active.append(i)
            self.many("initialize", new)
            for i in self.orders("updateSequential", active):
                self.call("updateSequential", i)
            if f["touches"]:
                for i in self.orders("touch", active):
                    self.call("touch", i)
            par = list(active)
            random.Random(self.plan["draws"] + n).shuffle(par)
            self.many("updateParallel", par)
            gone = [i for i in active if self.o.despawned(i)]
            self.many("terminate", gone)
            if gone:
                self.fault("entity_despawned", len(gone))
            for i in gone:
                self.set_state(i, 2)
                active.remove(i)
            self.stats["frames"] = self.stats.get("frames", 0) + 1

    def set_frame(self, f):
        f.setdefault("touches", [])
        self.each(lambda s: s.frame(f))


class Watch(Lockstep):
    mode = "watch"

    def run(self):
        self.load()
        self.set_frame(dict(time=-1.0, delta=0.0))
        n = len(self.state)
        for i in self.orders("preprocess", range(n)):
            self.call("preprocess", i)
        span = {}
        for i in range(n):
            a = self.call("spawnTime", i) if self.o.method(i, "spawnTime") else 0.0
            b = self.call("despawnTime", i) if self.o.method(i, "despawnTime") else 1e9
            span[i] = float(a), float(b)
        active = []
        for k, f in enumerate(self.plan["frames"]):
            self.frame_no = k
            self.set_frame(f)
            # the spawn clock of the engine follows updateSpawn
            now = float(self.call("updateSpawn", None))
            cur = [i for i in range(n) if span[i][0] <= now < span[i][1]]
            new = [i for i in cur if i not in active]
            gone = [i for i in active if i not in cur]
            self.many("terminate", gone)
            for i in gone:
                self.set_state(i, 0)
            for i in new:
                self.set_state(i, 1)
            self.many("initialize", new)
            active = cur
            for i in self.orders("updateSequential", active):
                self.call("updateSequential", i)
            par = list(active)
            random.Random(self.plan["draws"] + k).shuffle(par)
            self.many("updateParallel", par)
            self.stats["frames"] = self.stats.get("frames", 0) + 1

    def set_frame(self, f):
        self.each(lambda s: s.frame(f))


class Preview(Lockstep):
    mode = "preview"

    def run(self):
        self.load()
        n = len(self.state)
        for i in self.orders("preprocess", range(n)):
            self.call("preprocess", i)
        self.many("render", [i for i in range(n) if self.o.method(i, "render")])


class Tutorial(Lockstep):
    mode = "tutorial"

    def run(self):
        self.set_frame(dict(time=0.0, delta=0.0))
        self.call("preprocess", None)
        for k, f in enumerate(self.plan["frames"]):
            self.frame_no = k
            self.set_frame(f)
            if f.get("navigation"):
                self.call("navigate", None)
            self.call("update", None)
            self.stats["frames"] = self.stats.get("frames", 0) + 1

    def set_frame(self, f):
        self.each(lambda s: s.frame(f))


MODES = {"play": Play, "watch": Watch, "preview": Preview, "tutorial": Tutorial}
