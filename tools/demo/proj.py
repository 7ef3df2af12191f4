"""A small project with the resources a site needs, written into a directory."""
import json, os

RES = [("skins", "s1"), ("backgrounds", "b1"), ("effects", "e1"), ("particles", "p1")]


def write(root, files=None, engine_extra=""):
    pkg = f"{root}/game"
    os.makedirs(pkg, exist_ok=True)
    base = {
        "__init__.py": "",
        "project.py": '''
from pathlib import Path
from sonolus.script.engine import Engine, EngineData
from sonolus.script.level import Level, LevelData
from sonolus.script.project import Project
from game.play import play_mode, Note

level = Level(name="lvl", title="L", bgm=None, data=LevelData(bgm_offset=0, entities=[Note(beat=1.0)]))
engine = Engine(name="eng", title="E", data=EngineData(play=play_mode))
project = Project(engine=engine, levels=[level], resources=Path(__file__).parent.parent / "resources")
''',
        "play.py": '''
from sonolus.script.archetype import PlayArchetype, imported, entity_memory
from sonolus.script.engine import PlayMode
from game.helper import weight


class Note(PlayArchetype):
    beat: float = imported()
    acc: float = entity_memory()

    def preprocess(self):
        self.acc = self.beat * weight()

    def update_parallel(self):
        self.acc += 1


play_mode = PlayMode(archetypes=[Note])
''',
        "helper.py": '''
def weight():
    return 2
''',
    }
    base.update(files or {})
    for n, t in base.items():
        with open(f"{pkg}/{n}", "w") as f:
            f.write(t)
    for cat, name in RES:
        d = f"{root}/resources/{cat}/{name}"
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/item.json", "w") as f:
            json.dump({"version": 1, "title": name, "subtitle": "", "author": "", "tags": []}, f)
        with open(f"{d}/data.bin", "w") as f:
            f.write(name * 10)
        with open(f"{d}/texture.png", "w") as f:
            f.write("tex" + name)
