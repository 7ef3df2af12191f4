"""D08: assets are published exactly or not at all when reading them fails."""

import gzip
import hashlib
import io
import json
import re
import zipfile

from ..dev import common, model, origin, world
from ..dev.common import ASSUMPTIONS, REAL, STATE_MEASURE, STUB, sample, shrinks  # noqa: F401
from ..runner import Violation

TIERS = {"quick": {"runs": 500, "wall": 110}, "thorough": {"runs": 20000, "wall": 3000}}
RULE = ("one case = a dev session whose builds read resources from a faulty disk and assets from a faulty HTTP origin; non-trivial = at least one "
        "read fault fired (or an unusual but valid response was served) and the outcome was judged item by item")
setup = world.setup


def read_faults(rng, m):
    cat = rng.choice(model.CATS)
    name = rng.choice(sorted(m["items"][cat]))
    fn = rng.choice(sorted(m["items"][cat][name]["files"]))
    target = rng.choice([f"/{cat}/{name}/{fn}", f"/{cat}/{name}/{fn}", f"/{cat}/{name}/item.json", f"/{cat}/", ".scp", "/resources", "thumb.png", "/levels/"])
    r = rng.random()
    if r < 0.35:
        return [{"side": "r", "op": "read", "kind": "EIO", "match": target, "skip": rng.randint(0, 3)}]
    if r < 0.6:
        return [{"side": "r", "op": "open_r", "kind": rng.choice(["EIO", "EACCES", "EMFILE"]), "match": target, "skip": rng.randint(0, 2)}]
    if r < 0.7:
        return [{"side": "r", "op": rng.choice(["listdir", "stat"]), "kind": "EIO", "match": "/resources", "skip": rng.randint(0, 30)}]
    if r < 0.9:
        return [{"side": "r", "op": "read", "kind": "short", "match": "/resources", "max": rng.choice([1, 5, 64]), "skip": rng.randint(0, 5)}]
    return [{"side": "r", "op": rng.choice(["open_r", "read"]), "kind": "vanish", "match": f"/{cat}/{name}/{fn}"}]


def add_http(rng, m):
    for l in m["levels"].values():
        for kw in ("bgm", "preview"):
            if rng.random() < 0.5:
                l[kw] = {"u": model.uniq(m), "n": rng.choice([3, 90, 5000])}
    if rng.random() < 0.4:
        m["http_assets"] = [{"u": model.uniq(m), "n": 120}]


def specs(m):
    out = [l[kw] for l in m["levels"].values() for kw in ("bgm", "preview") if l.get(kw)]
    return out + m["http_assets"]


def gen(rng, tier, i):
    m = model.gen(rng, small=rng.random() < 0.5)
    if not m["levels"] and rng.random() < 0.7:
        m["levels"]["lv0"] = common.model.gen_level(rng, m)
    add_http(rng, m)
    cur = m
    http: dict[str, list] = {}

    def misbehave():
        for sp in specs(cur):
            if rng.random() < 0.35:
                http.setdefault(f"/a{sp['u']}n{sp['n']}", []).append(rng.choice(origin.BAD if rng.random() < 0.6 else origin.GOOD))
            else:
                http.setdefault(f"/a{sp['u']}n{sp['n']}", []).append("ok")

    def faults():
        return read_faults(rng, cur) if rng.random() < 0.75 else []

    misbehave()
    steps = [{"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS), "faults": faults()}]
    if rng.random() < 0.5:
        steps.append({"op": "start", "cmd": "dev", "args": rng.choice(common.ARGS)})
    for _ in range(rng.randint(1, 3)):
        e, cur = common.gen_edits(rng, cur, rng.randint(1, 2), ["res_mod", "res_file", "res_add", "scp", "thumb", "level_mod", "const", "item_json_only"])
        # new levels get downloaded parts too
        for x in e:
            add_http(rng, x["model"])
        cur = e[-1]["model"]
        steps += e
        misbehave()
        steps.append({"op": "line", "text": "r", "faults": faults()})
    return {"model": m, "steps": steps, "sched": common.sched(rng), "scan_seed": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
            "clients": [], "final_quit": True, "http": http, "on_proc": "simlib.dev.origin", "keep_assets": True}


def expected(files):
    """(category, item, key) -> exact bytes, straight from the files an editor wrote."""
    out = {}
    for p, b in files.items():
        parts = p.split("/")
        if len(parts) == 4 and parts[0].startswith("resources") and parts[1] in ("skins", "backgrounds", "effects", "particles", "levels", "engines"):
            if parts[3] == "item.json":
                continue
            stem, _, ext = parts[3].rpartition(".")
            stem = stem or parts[3]
            out.setdefault(parts[0], {})[(parts[1], parts[2], stem)] = (b, ext in ("json", "bin"))
    return out


def compare(got, want, missing_ok, path=""):
    """Differences between two documents other than keys that were reported as unreadable."""
    out = []
    if isinstance(got, dict) and isinstance(want, dict):
        name = got.get("name") if isinstance(got.get("name"), str) else None
        for k in sorted(set(got) | set(want)):
            if k not in got:
                if (name, k) in missing_ok:
                    continue
                out.append(f"{path}/{k} absent")
            elif k not in want:
                out.append(f"{path}/{k} extra")
            else:
                out += compare(got[k], want[k], missing_ok, f"{path}/{k}")
    elif isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want, strict=True)):
            out += compare(a, b, missing_ok, f"{path}[{i}]")
    elif got != want:
        out.append(f"{path} differs")
    return out


def judge(j):
    res = j.res
    fired = any(k.startswith(("fault.EIO", "fault.EACCES", "fault.EMFILE", "fault.short", "fault.http", "fault.vanish", "probe.http")) for k in j.stats)
    judged = 0
    # a file that vanished is no longer part of the source
    gone = {(x["match"].split("/")[2], x["match"].split("/")[3].rpartition(".")[0]) for st in j.plan["steps"] for x in st.get("faults") or () if x["kind"] == "vanish"}
    reported: dict[int, set] = {}

    def scan(text, proc):
        for mm in re.finditer(r"resources2?/(\w+)/([\w.-]+)/([\w.-]+?)(?:\.\w+)?(?=['\":\s]|$)", text):
            reported.setdefault(proc, set()).add((mm.group(2), mm.group(3)))

    for o in res["obs"]:
        if o["kind"] == "liveness":
            raise Violation("liveness", o["text"])
        if o["kind"] in ("line", "started"):
            scan(o["out"], o["proc"])
        if o["kind"] != "served" or o["label"] == "extra" or (o["label"] == "rebuild" and not o["ok"]):
            continue
        snap = o.get("want") or o["snap"]
        files = res["snaps"][snap]
        f = j.fresh(snap, o["proc"])
        if not f["ok"]:
            raise RuntimeError(f"oracle build failed: {f['out'][-300:]} {f['err'][-800:]}")
        judged += 1
        if o["bad"]:
            raise Violation("incomplete-site", f"plan step {o['idx']}: {o['bad'][:3]}")
        ok = reported.get(o["proc"], set()) | gone
        clo = o["closure"]
        for p in sorted(set(clo) | set(f["closure"])):
            if "/repository/" in p:
                continue
            if p not in clo:
                raise Violation("item-dropped", f"plan step {o['idx']}: {p} is not served although a fault-free build has it; reported: {sorted(ok)}")
            if p not in f["closure"]:
                raise Violation("item-invented", f"plan step {o['idx']}: {p} is served but not part of a fault-free build")
            if clo[p] == f["closure"][p]:
                continue
            d = compare(json.loads(res["bodies"][clo[p]]), json.loads(f["bodies"][f["closure"][p]]), ok)
            if d:
                raise Violation("differs", f"plan step {o['idx']}: {p} differs from a fault-free build beyond what was reported ({sorted(ok)}): {d[:4]}")
            j.count("probe.judged_with_reported_loss")
        # bytes, independently of the loader
        rd = "resources"
        pj = files["game/project.py"].decode()
        mm = re.search(r"resources=Path\(__file__\).parent.parent / '(\w+)'", pj)
        rd = mm.group(1) if mm else rd
        built = {n for n in re.findall(r"Level\(name='(\w+)'", files["game/levels.py"].decode())}
        for (cat, name, key), (data, packed) in expected(files).get(rd, {}).items():
            h = clo.get(f"/sonolus/{cat}/{name}")
            if h is None or (cat == "levels" and (name in built or key == "data")):
                continue
            item = json.loads(res["bodies"][h])["item"]
            srl = item.get(key)
            if cat == "engines" and name == "eng":
                continue
            if srl is None:
                if (name, key) not in ok:
                    raise Violation("asset-missing", f"plan step {o['idx']}: {cat}/{name}/{key} is absent and no error was reported")
                continue
            body = res["bodies"].get(clo.get(srl["url"], ""), None)
            if body is None:
                raise Violation("asset-unfetchable", f"{cat}/{name}/{key}")
            if packed:
                try:
                    body = gzip.decompress(body)
                except (OSError, EOFError) as e:
                    raise Violation("asset-bytes", f"{cat}/{name}/{key} is not valid gzip: {e}") from None
            if body != data:
                raise Violation("asset-bytes", f"plan step {o['idx']}: {cat}/{name}/{key} has {len(body)} bytes that are not those of its source ({len(data)})")
            j.count("assets_checked")
        # downloads
        for name, kw, u, n in re.findall(r"Level\(name='(\w+)'.*?(bgm|preview)='http://cdn.test:9000/a(\d+)n(\d+)'", files["game/levels.py"].decode()):
            h = clo.get(f"/sonolus/levels/{name}")
            item = json.loads(res["bodies"][h])["item"]
            if res["bodies"].get(clo.get(item[kw]["url"], "")) != model.blob({"u": int(u), "n": int(n)}):
                raise Violation("download-bytes", f"plan step {o['idx']}: {kw} of level {name} is not what the origin serves")
            j.count("downloads_checked")
    for e in res["ends"]:
        if e.get("end") == "exit" and e.get("code") == 0 and not any(o["kind"] in ("quit", "ctrlc") and o["proc"] == e["proc"] for o in res["obs"]):
            raise Violation("silent-exit", f"process {e['proc']} ended with code 0 without serving: {e['out'][-300:]}")
    return res["digest"] if fired else None


def run(plan, ctx):
    return common.do_run(plan, ctx, judge)
