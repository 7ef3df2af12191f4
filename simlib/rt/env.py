"""Memory of the simulated engine: which blocks a mode has, how they alias, who may write them."""

from __future__ import annotations

import json
from pathlib import Path

BLOCKS = json.loads((Path(__file__).parent / "blocks.json").read_text())
# own copy of the engine's sizes; per-entity blocks are (array block name, stride)
SIZES = {
    "RuntimeEnvironment": 64, "RuntimeUpdate": 16, "RuntimeTouchArray": 15 * 16, "RuntimeSkinTransform": 16, "RuntimeParticleTransform": 16,
    "RuntimeBackground": 8, "RuntimeUI": 128, "RuntimeUIConfiguration": 64, "RuntimeCanvas": 16, "LevelMemory": 4096, "LevelData": 4096,
    "LevelOption": 64, "LevelBucket": 6 * 32, "LevelScore": 16, "LevelLife": 8, "PreviewData": 4096, "PreviewOption": 64, "TutorialMemory": 4096,
    "TutorialData": 4096, "TutorialInstruction": 8, "ArchetypeLife": 4 * 64, "ArchetypeScore": 4 * 64, "TemporaryMemory": 4096,
}
ENTITY = {  # name -> (stride, array block or None)
    "play": {"EntityMemory": (64, None), "EntityData": (32, "EntityDataArray"), "EntitySharedMemory": (32, "EntitySharedMemoryArray"),
             "EntityInfo": (3, "EntityInfoArray"), "EntityDespawn": (1, None), "EntityInput": (5, None), "EntityScore": (1, "EntityScoreArray"),
             "EntityLife": (4, "EntityLifeArray")},
    "watch": {"EntityMemory": (64, None), "EntityData": (32, "EntityDataArray"), "EntitySharedMemory": (32, "EntitySharedMemoryArray"),
              "EntityInfo": (3, "EntityInfoArray"), "EntityInput": (5, None), "EntityScore": (1, "EntityScoreArray"), "EntityLife": (4, "EntityLifeArray")},
    "preview": {"EntityData": (32, "EntityDataArray"), "EntitySharedMemory": (32, "EntitySharedMemoryArray"), "EntityInfo": (2, "EntityInfoArray")},
    "tutorial": {},
}
CALLBACKS = {
    "play": ["preprocess", "spawnOrder", "shouldSpawn", "initialize", "updateSequential", "touch", "updateParallel", "terminate"],
    "watch": ["preprocess", "spawnTime", "despawnTime", "initialize", "updateSequential", "updateParallel", "terminate", "updateSpawn"],
    "preview": ["preprocess", "render"],
    "tutorial": ["preprocess", "navigate", "update"],
}
PARALLEL = {"play": ["spawnOrder", "shouldSpawn", "initialize", "updateParallel", "terminate"], "watch": ["spawnTime", "despawnTime", "initialize", "updateParallel", "terminate"],
            "preview": ["render"], "tutorial": []}


def writable(mode, cb):
    return frozenset(v[0] for v in BLOCKS[mode].values() if cb in v[2])


def readable(mode, cb):
    return frozenset(v[0] for v in BLOCKS[mode].values() if cb in v[1])


class Env:
    """Shared memory of one level in one mode; `view(entity)` maps block ids for one entity's callback."""

    def __init__(self, mode, n_entities, rom=(), temp_size=4096, sizes=None):
        self.mode, self.n = mode, n_entities
        self.mem = {}
        b = BLOCKS[mode]
        ent = ENTITY[mode]
        arrays = {a for _, a in ent.values() if a}
        for name, (bid, _, _) in b.items():
            if name in ent:
                self.mem[name] = [0.0] * (ent[name][0] * n_entities)
            elif name in arrays:
                pass
            elif name == "EngineRom":
                self.mem[name] = [float(v) for v in rom] or [0.0]
            elif name == "TemporaryMemory":
                self.mem[name] = [0.0] * temp_size
            else:
                self.mem[name] = [0.0] * ((sizes or {}).get(name) or SIZES[name])
        if "EntityInfo" in ent:
            st = ent["EntityInfo"][0]
            for i in range(n_entities):
                self.mem["EntityInfo"][i * st] = float(i)
        self._views = {}

    def view(self, entity, cb, temp=None):
        """id -> (list, base, size); entity None for callbacks that belong to no entity."""
        key = (entity, cb, id(temp))
        v = self._views.get(key)
        if v is not None:
            return v
        out = {}
        b = BLOCKS[self.mode]
        for name, (bid, rd, _) in b.items():
            if cb not in rd:
                continue
            if name in ENTITY[self.mode]:
                stride, arr = ENTITY[self.mode][name]
                if entity is not None:
                    out[bid] = (self.mem[name], entity * stride, stride)
                if arr:
                    out[b[arr][0]] = (self.mem[name], 0, len(self.mem[name]))
            elif name in self.mem:
                m = self.mem[name] if not (temp is not None and name == "TemporaryMemory") else temp
                out[bid] = (m, 0, len(m))
        self._views[key] = out
        return out

    def snapshot(self, temp=False):
        return {k: list(v) for k, v in self.mem.items() if temp or k != "TemporaryMemory"}

    def restore(self, snap):
        for k, v in snap.items():
            self.mem[k][:] = v


def same(a, b):
    """Equal as engine values: NaN equals NaN, the sign of zero is not observable."""
    return a == b or (a != a and b != b)


def diff(s, t, limit=4):
    out = []
    for k in s:
        if s[k] != t[k]:
            for i, (x, y) in enumerate(zip(s[k], t[k])):
                if not same(x, y):
                    out.append((k, i, x, y))
                    if len(out) >= limit:
                        return out
    return out
