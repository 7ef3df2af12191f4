"""A small project as data: rendering to files, edits, random generation.

Every value an edit introduces is unique within the run, so anything stale in a later build is visible.
"""

from __future__ import annotations

import copy
import gzip
import io
import json
import zipfile

CATS = ["skins", "backgrounds", "effects", "particles"]
BROKEN = ["syntax", "import_raise", "import_exit", "compile", "compile_user", "compile_watch", "compile_tutorial",
          "level_missing_skin", "level_bad_field", "missing_thumbnail", "no_project", "converter_raise", "missing_engine_skin",
          "helper_syntax", "level_lazy_raise", "compile_late", "unserialisable", "level_item_engine", "converter_exit", "level_lazy_exit",
          "level_item_no_use", "level_item_no_use", "item_bad_tag", "scp_bad"]


def uniq(m) -> int:
    m["n"] += 1
    return m["n"]


def gen_item(rng, m):
    files = {}
    for fn in rng.sample(["data.json", "texture.png", "thumbnail.png", "clips.bin"], rng.randint(1, 3)):
        n = rng.choice([3, 40, 200, 9000]) if rng.random() < 0.9 else 30000
        files[fn] = {"u": uniq(m), "n": n}
    return {"u": uniq(m), "files": files, "title": rng.choice(["str", "dict", "nolang"])}


def gen_level_item(rng, m, name):
    return {"u": uniq(m), "engine": rng.choice([m["name"], m["name"], "old_eng", "other_eng"]), "beats": [uniq(m) for _ in range(rng.randint(1, 3))],
            "cover": {"u": uniq(m), "n": 50}}


def gen_arch(rng, m, name, mode):
    return {"name": name, "mode": mode, "k": uniq(m), "use": sorted(rng.sample(["const", "helper", "shared", "lit", "loop", "rom"], rng.randint(1, 3))),
            "msgs": [uniq(m) for _ in range(rng.randint(0, 3))], "shared_msg": rng.random() < 0.4, "extra_field": rng.random() < 0.3,
            "assert": rng.random() < 0.5}


def gen(rng, small=False):
    m = {"n": rng.randint(100, 900), "name": "eng", "consts": {}, "archs": [], "levels": {}, "items": {c: {} for c in CATS}, "level_items": {},
         "scps": {}, "res_dir": "resources", "broken": None, "converters": [], "tutorial": False, "options": 0, "sprites": 1,
         "thumb": None, "lazy_levels": rng.random() < 0.3, "engine_skin": None, "http_assets": []}
    m["consts"] = {f"K{i}": uniq(m) for i in range(2)}
    m["helper"] = {"a": uniq(m), "b": uniq(m)}
    m["shared"] = {"a": uniq(m)}
    for i in range(rng.randint(1, 2 if small else 3)):
        m["archs"].append(gen_arch(rng, m, f"A{i}", "play"))
    for i in range(rng.randint(0, 1)):
        m["archs"].append(gen_arch(rng, m, f"W{i}", "watch"))
    m["tutorial"] = rng.random() < 0.3
    m["options"] = rng.randint(0, 2)
    m["sprites"] = rng.randint(0, 3)
    for i in range(rng.randint(0, 2)):
        m["levels"][f"lv{i}"] = gen_level(rng, m)
    for c in CATS:
        for i in range(1 if small else rng.randint(1, 2)):
            m["items"][c][f"{c[:2]}{rng.choice('abcxyz')}{i}"] = gen_item(rng, m)
    if rng.random() < 0.5:
        for i in range(rng.randint(1, 2)):
            m["level_items"][f"ext{i}"] = gen_level_item(rng, m, f"ext{i}")
    if rng.random() < 0.4:
        m["scps"]["pack0"] = gen_scp(rng, m)
    if rng.random() < 0.4:
        m["scps"]["sub/pack1"] = gen_scp(rng, m)
    if m["level_items"] and rng.random() < 0.8:
        m["converters"] = gen_converters(rng, m)
    elif rng.random() < 0.2:
        m["converters"] = gen_converters(rng, m)
    fix_engines(m)
    if rng.random() < 0.3:
        m["thumb"] = {"u": uniq(m), "n": 60}
    if rng.random() < 0.3:
        m["engine_skin"] = sorted(m["items"]["skins"])[0]
    return m


def gen_level(rng, m):
    return {"u": uniq(m), "beats": [uniq(m) for _ in range(rng.randint(0, 4))], "skin": rng.random() < 0.3, "cover": rng.random() < 0.3}


def gen_scp(rng, m):
    cat = rng.choice(CATS)
    return {"cat": cat, "name": f"{cat[:2]}scp{rng.randint(0, 2)}", "u": uniq(m), "n": rng.choice([5, 500])}


def gen_converters(rng, m):
    out = []
    for src in rng.sample(["old_eng", "other_eng", m["name"], None], rng.randint(1, 3)):
        out.append({"src": src, "add": uniq(m), "decline": rng.random() < 0.2})
    return out


def fix_engines(m):
    """Level items must name an engine that exists, or link() fails: engines not built here come from the resources."""
    m["engine_items"] = sorted({li["engine"] for li in m["level_items"].values() if li["engine"] != m["name"]})


# ------------------------------------------------------------------ rendering
def blob(spec) -> bytes:
    u, n = spec["u"], spec["n"]
    s = f"<{u}>".encode()
    return (s * (n // len(s) + 1))[:max(n, len(s))]


def _arch_src(m, a):
    base = {"play": "PlayArchetype", "watch": "WatchArchetype"}[a["mode"]]
    L = [f"class {a['name']}({base}):", f"    name = {a['name']!r}", "    beat: float = imported()", "    trig: float = imported()"]
    if a["extra_field"]:
        L.append("    extra: float = imported()")
    L.append("    x: float = entity_memory()")
    cb = "update_sequential"
    L.append(f"    def {cb}(self):")
    for u in a["use"]:
        if u == "const":
            L.append(f"        self.x += consts.K0 + {a['k']}")
        elif u == "helper":
            L.append("        self.x += helper.h0(self.beat)")
        elif u == "shared":
            L.append("        self.x += shared_util.g(self.beat) + helper.h1(self.x)")
        elif u == "lit":
            L.append(f"        self.x = self.x * {a['k']} + consts.K1")
        elif u == "rom":
            L.append(f"        self.x += TABLE[int(self.beat) % 4] + {a['k']}")
        elif u == "loop":
            L.append(f"        for i in range(int(self.beat)):\n            self.x += i * {a['k']}")
    for j, u in enumerate(a["msgs"]):
        L.append(f"        if self.trig == {j + 1}:")
        L.append(f"            debug.error('msg <{u}>')")
    if a["shared_msg"]:
        L.append("        if self.trig == 11:\n            debug.notify('shared notice')")
        L.append(f"        if self.trig == 12:\n            fail_common({a['k']})")
    if a["assert"]:
        L.append(f"        assert self.trig != 13, 'asserted <{a['k']}>'")
    if a["mode"] == "watch":
        L.append("    def spawn_time(self):\n        return self.beat")
        L.append("    def despawn_time(self):\n        return self.beat + 1")
    else:
        L.append(f"    def spawn_order(self):\n        return self.beat + {a['k']}")
        L.append("    def should_spawn(self):\n        return True")
    return "\n".join(L)


def render(m) -> dict[str, bytes]:
    """path -> content, relative to the project directory."""
    out: dict[str, str | bytes] = {}
    br = m["broken"]
    out["game/__init__.py"] = ""
    out["game/lib/__init__.py"] = ""
    out["game/lib/consts.py"] = "\n".join(f"{k} = {v}" for k, v in m["consts"].items()) + "\n"
    h = m["helper"]
    out["game/lib/helper.py"] = (
        "from game.lib import consts\n"
        + ("def broken(:\n" if br == "helper_syntax" else "")
        + f"def h0(x):\n    return x * {h['a']} + consts.K1\n\ndef h1(x):\n    if x > {h['b']}:\n        return {h['b']}\n    return x\n"
    )
    out["shared_util.py"] = f"def g(x):\n    return x + {m['shared']['a']}\n"
    head = (
        "from sonolus.script import debug\n"
        "from sonolus.script.archetype import {0}, entity_memory, imported\n"
        "from sonolus.script.array import Array\n"
        "from sonolus.script.engine import {1}\n"
        "from game.lib import consts, helper\n"
        "import shared_util\n"
        f"TABLE = Array(*[{', '.join(str(m['consts']['K0'] + i) for i in range(4))}])\n"
        f"def fail_common(u):\n    debug.error('common failure')\n"
    )
    skin = ("from sonolus.script.sprite import Sprite, skin, sprite\n@skin\nclass Skin:\n"
            + ("".join(f"    s{i}: Sprite = sprite('sp{i}_{m['consts']['K0']}')\n" for i in range(m["sprites"])) or "    pass\n"))
    out["game/lib/skin.py"] = skin
    play = [a for a in m["archs"] if a["mode"] == "play"]
    watch = [a for a in m["archs"] if a["mode"] == "watch"]
    body = head.format("PlayArchetype", "PlayMode") + "from game.lib.skin import Skin\n"
    if br == "syntax":
        body += "def oops(:\n"
    body += "\n\n".join(_arch_src(m, a) for a in play) + "\n"
    late = []
    if br == "compile":
        body += "class Bad(PlayArchetype):\n    name = 'Bad'\n    def preprocess(self):\n        undefined_thing(1)\n"
        late = ["Bad"]
    elif br == "compile_user":
        body += ("def boom(x):\n    return x // 0 if False else {}[x]\n"
                 "class Bad(PlayArchetype):\n    name = 'Bad'\n    x: float = entity_memory()\n    def update_parallel(self):\n        self.x = boom(self.x)\n")
        late = ["Bad"]
    elif br == "compile_late":
        body += ("class Bad(PlayArchetype):\n    name = 'Bad'\n    x: float = entity_memory()\n    def preprocess(self):\n        self.x = 1\n"
                 "    def update_parallel(self):\n        for i in range(3):\n            while self.x > 3:\n                self.x -= helper.h0(i)\n                debug.static_error('stop here')\n")
        late = ["Bad"]
    names = [a["name"] for a in play] + late
    dfiles, dinc = ({}, {})
    if m.get("dbg"):
        from . import dbg

        dfiles, dinc = dbg.render(m["dbg"])
        out.update(dfiles)
    if "play" in dinc:
        body += "from game.dbg_play import ARCHS as DBG\n"
        names.append("*DBG")
    body += f"play_mode = PlayMode(archetypes=[{', '.join(names)}], skin=Skin)\n"
    out["game/play.py"] = body
    if watch or br == "compile_watch" or "watch" in dinc:
        wb = head.format("WatchArchetype", "WatchMode") + "from game.lib.skin import Skin\n" + "\n\n".join(_arch_src(m, a) for a in watch) + "\n"
        wn = [a["name"] for a in watch]
        if br == "compile_watch":
            wb += "class BadW(WatchArchetype):\n    name = 'BadW'\n    def preprocess(self):\n        debug.static_error('bad watch')\n"
            wn.append("BadW")
        if "watch" in dinc:
            wb += "from game.dbg_watch import ARCHS as DBG, extra_spawn\n"
            wn.append("*DBG")
        wb += f"def update_spawn():\n    return {m['consts']['K1']}" + (" + extra_spawn()" if "watch" in dinc else "") + "\n"
        wb += f"watch_mode = WatchMode(archetypes=[{', '.join(wn)}], skin=Skin, update_spawn=update_spawn)\n"
        out["game/watch.py"] = wb
    has_tut = m["tutorial"] or br == "compile_tutorial"
    if has_tut:
        out["game/tut.py"] = (
            "from sonolus.script.engine import TutorialMode\nfrom sonolus.script import debug\nfrom game.lib import consts, helper\n"
            "def preprocess():\n    pass\ndef navigate():\n    pass\n"
            + ("def update():\n    debug.static_error('bad tutorial')\n" if br == "compile_tutorial"
               else f"def update():\n    debug.debug_log(helper.h0(consts.K0) + {m['shared']['a']})\n")
            + "tutorial_mode = TutorialMode(preprocess=preprocess, navigate=navigate, update=update)\n"
        )
    if m["options"]:
        out["game/lib/options.py"] = (
            "from sonolus.script.options import options, slider_option\n@options\nclass Options:\n"
            + "".join(f"    o{i}: float = slider_option(name='opt{i}_{m['consts']['K1']}', default=1, min=0, max=2, step=0.5)\n" for i in range(m["options"]))
        )
    lv = "from sonolus.script.level import Level, LevelData\nfrom pathlib import Path\nimport game.play as P\nRES = Path(__file__).parent.parent\ndef make_levels():\n    out = []\n"
    if br == "level_lazy_raise":
        lv += "    raise RuntimeError('levels unavailable')\n"
    elif br == "level_lazy_exit":
        lv += "    raise SystemExit('no levels')\n"
    first = play[0]["name"] if play else None
    for name, l in m["levels"].items():
        ents = ", ".join(f"P.{first}(beat={b}, trig=0)" for b in l["beats"]) if first else ""
        extra = ""
        if l["skin"] and m["items"]["skins"]:
            extra += f", use_skin={sorted(m['items']['skins'])[0]!r}"
        if l["cover"]:
            extra += f", cover=b'cover<{l['u']}>'"
        for kw in ("bgm", "preview"):
            if l.get(kw):
                extra += f", {kw}='http://cdn.test:9000/a{l[kw]['u']}n{l[kw]['n']}'"
        lv += f"    out.append(Level(name={name!r}, title='t{l['u']}', data=LevelData(bgm_offset={l['u']}, entities=[{ents}]){extra}))\n"
    if br == "level_missing_skin":
        lv += "    out.append(Level(name='badlevel', data=LevelData(bgm_offset=0, entities=[]), use_skin='does_not_exist'))\n"
    if br == "unserialisable":
        lv += "    out.append(Level(name='badlevel', rating=1j, data=LevelData(bgm_offset=0, entities=[])))\n"
    if br == "level_bad_field":
        lv += f"    out.append(Level(name='badlevel', data=LevelData(bgm_offset=0, entities=[P.{first}(nonsense=3)])))\n"
    lv += "    return out\n"
    out["game/levels.py"] = lv
    pr = (
        "from pathlib import Path\nfrom sonolus.script.engine import Engine, EngineData\nfrom sonolus.script.project import Project\n"
        "from game.play import play_mode\nfrom game.levels import make_levels\n"
    )
    data = "play=play_mode"
    if "game/watch.py" in out:
        pr += "from game.watch import watch_mode\n"
        data += ", watch=watch_mode"
    if "preview" in dinc:
        pr += "from game.dbg_preview import preview_mode\n"
        data += ", preview=preview_mode"
    if "tutorial" in dinc and br != "compile_tutorial":
        pr += "from game.dbg_tutorial import tutorial_mode\n"
        data += ", tutorial=tutorial_mode"
    elif has_tut:
        pr += "from game.tut import tutorial_mode\n"
        data += ", tutorial=tutorial_mode"
    if m["options"]:
        pr += "from game.lib.options import Options\n"
        data += ", options=Options"
    if br == "import_raise":
        pr += "raise ValueError('broken on import')\n"
    elif br == "import_exit":
        pr += "import sys\nsys.exit(3)\n"
    conv = ""
    if m["converters"] or br in ("converter_raise", "converter_exit"):
        pr += "from sonolus.script.level import LevelData\nimport game.play as P\n"
        entries = []
        for i, c in enumerate(m["converters"]):
            if c["decline"]:
                pr += f"def conv{i}(data):\n    return None\n"
            else:
                ent = f"[P.{first}(beat=e.data.get('beat', 0) + {c['add']}, trig=0) for e in data.entities]" if first else "[]"
                pr += f"def conv{i}(data):\n    return LevelData(bgm_offset=data.bgm_offset + {c['add']}, entities={ent})\n"
            entries.append(f"{c['src']!r}: conv{i}")
        if br in ("converter_raise", "converter_exit"):
            pr += "def convbad(data):\n    raise " + ("RuntimeError" if br == "converter_raise" else "SystemExit") + "('cannot convert')\n"
            entries = [e for e in entries if not e.startswith("None:")] + ["None: convbad"]
        conv = ", converters={" + ", ".join(entries) + "}"
    ekw = ""
    if br == "missing_engine_skin":
        ekw += ", skin='nope_skin'"
    elif m["engine_skin"] and m["engine_skin"] in m["items"]["skins"]:
        ekw += f", skin={m['engine_skin']!r}"
    if br == "missing_thumbnail":
        ekw += ", thumbnail=Path('nothere.png')"
    elif m["thumb"]:
        ekw += f", thumbnail='thumb.png'"
    for j, u in enumerate(m["http_assets"]):
        if j == 0 and "thumbnail" not in ekw:
            ekw += f", thumbnail='http://cdn.test:9000/a{u['u']}n{u['n']}'"
    pr += f"engine = Engine(name={m['name']!r}, title='E{m['consts']['K0']}', data=EngineData({data}){ekw})\n"
    levels = "make_levels" if m["lazy_levels"] else "make_levels()"
    pr += f"{'prj' if br == 'no_project' else 'project'} = Project(engine=engine, levels={levels}, resources=Path(__file__).parent.parent / {m['res_dir']!r}{conv})\n"
    out["game/project.py"] = pr
    # resources
    rd = m["res_dir"]
    for cat, items in m["items"].items():
        for name, it in items.items():
            t = {"str": f"T{it['u']}", "dict": {"ja": "J", "en": f"T{it['u']}"}, "nolang": {"ko": f"K{it['u']}", "zh": "Z"}}[it["title"]]
            out[f"{rd}/{cat}/{name}/item.json"] = json.dumps({"version": 4, "title": t, "subtitle": "s", "author": "a", "tags":
                                                                   [{"icon": "x"}] if br == "item_bad_tag" and cat == CATS[it["u"] % 4] else []})
            for fn, spec in it["files"].items():
                out[f"{rd}/{cat}/{name}/{fn}"] = blob(spec)
    for name, li in m["level_items"].items():
        d = {"bgmOffset": li["u"], "entities": [{"archetype": "X", "data": [{"name": "beat", "value": b}]} for b in li["beats"]]}
        out[f"{rd}/levels/{name}/item.json"] = json.dumps(
            {"version": 1, "rating": 1, "title": f"L{li['u']}", "artists": "a", "author": "a", "tags": [], "engine": "nowhere" if br == "level_item_engine" else li["engine"],
             "useSkin": {"useDefault": True}, "useBackground": {"useDefault": True}, "useParticle": {"useDefault": True},
             **({} if br == "level_item_no_use" and name == max(m["level_items"]) else {"useEffect": {"useDefault": True}})})
        out[f"{rd}/levels/{name}/data"] = gzip.compress(json.dumps(d).encode(), mtime=0)
        out[f"{rd}/levels/{name}/cover.png"] = blob(li["cover"])
    for e in m.get("engine_items", ()):
        out[f"{rd}/engines/{e}/item.json"] = json.dumps({"version": 13, "title": e, "subtitle": "s", "author": "a", "tags": []})
        out[f"{rd}/engines/{e}/playData"] = b"pd-" + e.encode()
    for name, sc in m["scps"].items():
        out[f"{rd}/{name}.scp"] = scp_bytes(sc)
    if br == "scp_bad":
        out[f"{rd}/zz.scp"] = b"PK not a zip"
    if m["thumb"]:
        out[f"{rd}/thumb.png"] = blob(m["thumb"])
    elif not any(k.startswith(rd + "/") for k in out):
        out[f"{rd}/.keep"] = b""
    return {k: (v.encode() if isinstance(v, str) else v) for k, v in out.items()}


def scp_bytes(sc) -> bytes:
    import hashlib

    data = blob(sc)
    hsh = hashlib.sha1(data).hexdigest()
    item = {"item": {"name": sc["name"], "version": 4, "title": f"S{sc['u']}", "subtitle": "", "author": "", "tags": [],
                     "data": {"hash": hsh, "url": f"/sonolus/repository/{hsh}"}}, "description": "", "actions": [], "hasCommunity": False,
            "leaderboards": [], "sections": []}
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as zf:
        for n, c in ((f"sonolus/{sc['cat']}/{sc['name']}", json.dumps(item).encode()), (f"sonolus/{sc['cat']}/list", b"{}"),
                     (f"sonolus/repository/{hsh}", data)):
            zf.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
    return b.getvalue()


# ------------------------------------------------------------------ edits
EDITS = ["const", "helper", "shared", "arch_k", "arch_add", "arch_del", "msgs", "level_add", "level_del", "level_mod", "res_mod", "res_add", "res_del",
         "res_file", "lvitem_add", "lvitem_mod", "lvitem_del", "conv", "conv_off", "scp", "scp_del", "sprites", "options", "tutorial", "thumb",
         "res_dir", "rename", "break", "fix", "watch_toggle", "engine_skin", "item_json_only", "touch"]


def edit(rng, m, kind=None, breaks=BROKEN):
    """Returns (new model, kind). Never fails; a kind that does not apply becomes a constant change."""
    m = copy.deepcopy(m)
    kind = kind or rng.choice(EDITS)
    k = kind
    if k == "const":
        m["consts"][rng.choice(sorted(m["consts"]))] = uniq(m)
    elif k == "helper":
        m["helper"][rng.choice("ab")] = uniq(m)
    elif k == "shared":
        m["shared"]["a"] = uniq(m)
    elif k == "arch_k" and m["archs"]:
        rng.choice(m["archs"])["k"] = uniq(m)
    elif k == "arch_add":
        m["archs"].insert(rng.randint(0, len(m["archs"])), gen_arch(rng, m, f"A{uniq(m)}", rng.choice(["play", "play", "watch"])))
    elif k == "arch_del" and sum(a["mode"] == "play" for a in m["archs"]) > 1:
        m["archs"].remove(rng.choice(m["archs"]))
    elif k == "msgs" and m["archs"]:
        a = rng.choice(m["archs"])
        a["msgs"] = [uniq(m) for _ in range(rng.randint(0, 3))]
        a["shared_msg"] = rng.random() < 0.5
    elif k == "level_add":
        m["levels"][f"lv{uniq(m)}"] = gen_level(rng, m)
    elif k == "level_del" and m["levels"]:
        del m["levels"][rng.choice(sorted(m["levels"]))]
    elif k == "level_mod" and m["levels"]:
        m["levels"][rng.choice(sorted(m["levels"]))] = gen_level(rng, m)
    elif k in ("res_mod", "res_file", "item_json_only"):
        c = rng.choice(CATS)
        n = rng.choice(sorted(m["items"][c]))
        it = m["items"][c][n]
        if k == "res_mod":
            m["items"][c][n] = gen_item(rng, m)
        elif k == "item_json_only":
            it["u"] = uniq(m)
        else:
            f = it["files"][rng.choice(sorted(it["files"]))]
            f["u"] = uniq(m)
    elif k == "res_add":
        c = rng.choice(CATS)
        m["items"][c][f"{rng.choice('abcxyz')}{uniq(m)}"] = gen_item(rng, m)
    elif k == "res_del":
        c = rng.choice(CATS)
        if len(m["items"][c]) > 1:
            n = rng.choice(sorted(m["items"][c]))
            del m["items"][c][n]
    elif k == "lvitem_add":
        n = f"ext{uniq(m)}"
        m["level_items"][n] = gen_level_item(rng, m, n)
    elif k == "lvitem_mod" and m["level_items"]:
        n = rng.choice(sorted(m["level_items"]))
        m["level_items"][n] = gen_level_item(rng, m, n)
    elif k == "lvitem_del" and m["level_items"]:
        del m["level_items"][rng.choice(sorted(m["level_items"]))]
    elif k == "conv":
        m["converters"] = gen_converters(rng, m)
    elif k == "conv_off":
        m["converters"] = []
    elif k == "scp":
        m["scps"][rng.choice(["pack0", "sub/pack1"])] = gen_scp(rng, m)
    elif k == "scp_del":
        m["scps"] = {}
    elif k == "sprites":
        m["sprites"] = rng.randint(0, 4)
    elif k == "options":
        m["options"] = rng.randint(0, 3)
    elif k == "tutorial":
        m["tutorial"] = not m["tutorial"]
    elif k == "thumb":
        m["thumb"] = {"u": uniq(m), "n": 60}
    elif k == "res_dir":
        m["res_dir"] = "resources2" if m["res_dir"] == "resources" else "resources"
    elif k == "rename":
        m["name"] = f"eng{uniq(m)}"
    elif k == "break":
        m["broken"] = rng.choice(breaks)
        if m["broken"].startswith("level_item") and not m["level_items"]:
            m["level_items"]["ext0"] = gen_level_item(rng, m, "ext0")
    elif k == "fix":
        m["broken"] = None
    elif k == "watch_toggle":
        w = [a for a in m["archs"] if a["mode"] == "watch"]
        if w:
            m["archs"] = [a for a in m["archs"] if a["mode"] != "watch"]
        else:
            m["archs"].append(gen_arch(rng, m, f"W{uniq(m)}", "watch"))
    elif k == "engine_skin":
        m["engine_skin"] = rng.choice(sorted(m["items"]["skins"]))
    elif k == "touch":
        pass
    else:
        m["consts"]["K0"] = uniq(m)
        kind = "const"
    fix_engines(m)
    return m, kind
