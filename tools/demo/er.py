"""Packages engines with the real build and runs their callbacks in a small engine host."""
import gzip, json, struct
from types import SimpleNamespace
from rt import env, host
from rt.machine import Machine, compile_nodes, run_node


def package(mods, level="standard", checks="none", state=None):
    from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES
    from sonolus.build.engine import package_engine
    from sonolus.script.engine import EngineData, PlayMode, PreviewMode, WatchMode, empty_play_mode, empty_preview_mode, empty_watch_mode
    from sonolus.script.internal.context import ProjectContextState, RuntimeChecks
    from sonolus.script.project import BuildConfig
    from sonolus.script.ui import UiConfig
    cfg = BuildConfig(passes={"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}[level],
                      runtime_checks={"none": RuntimeChecks.NONE, "terminate": RuntimeChecks.TERMINATE, "notify": RuntimeChecks.NOTIFY_AND_TERMINATE}[checks],
                      build_play="play" in mods, build_watch="watch" in mods, build_preview="preview" in mods, build_tutorial=False)
    st = ProjectContextState.from_build_config(cfg)
    data = EngineData(ui=UiConfig(),
        play=PlayMode(archetypes=mods["play"]) if "play" in mods else empty_play_mode(),
        watch=WatchMode(archetypes=mods["watch"], update_spawn=mods["update_spawn"]) if "watch" in mods else empty_watch_mode(),
        preview=PreviewMode(archetypes=mods["preview"]) if "preview" in mods else empty_preview_mode())
    out = package_engine(data, cfg, st)
    un = lambda b: json.loads(gzip.decompress(b))
    return SimpleNamespace(play=un(out.play_data), watch=un(out.watch_data), preview=un(out.preview_data), codes=dict(st.debug_str_mappings),
                           rom=[v[0] for v in struct.iter_unpack("<f", gzip.decompress(out.rom))])


class Eng:
    def __init__(self, pkg, mode="play", cap=32, streams=None):
        self.pkg, self.mode = pkg, mode
        self.data = getattr(pkg, mode)
        self.arch = self.data["archetypes"]
        self.names = [a["name"] for a in self.arch]
        self.fns = compile_nodes(self.data["nodes"])
        self.env = env.Env(mode, cap, rom=pkg.rom)
        self.streams = streams if streams is not None else host.Streams()
        self.n = 0
        self.of = []

    def add(self, name, **imports):
        a, i = self.names.index(name), self.n
        st = env.ENTITY[self.mode]["EntityInfo"][0]
        self.env.mem["EntityInfo"][i * st] = float(i)
        self.env.mem["EntityInfo"][i * st + 1] = float(a)
        st = env.ENTITY[self.mode]["EntityData"][0]
        for imp in self.arch[a].get("imports", []):
            self.env.mem["EntityData"][i * st + imp["index"]] = float(imports.get(imp["name"], imp.get("def") or 0))
        self.of.append(a)
        self.n += 1
        return i

    def time(self, t, dt=0.0):
        self.env.mem["RuntimeUpdate"][0:2] = [t, dt]

    def run(self, cb, i, draws=None, temp=None):
        root = self.arch[self.of[i]].get(cb) if i is not None else self.data.get(cb)
        root = root["index"] if isinstance(root, dict) else root
        h = host.Host(draws or host.Draws(1, "uniform"), self.streams)
        m = Machine(self.env.view(i, cb, temp), env.writable(self.mode, cb), h, 100000)
        v = run_node(self.fns[root], m)
        return v, h.calls

    def logs(self, cb, i, **kw):
        return [a[0] for n, a in self.run(cb, i, **kw)[1] if n == "DebugLog"]
