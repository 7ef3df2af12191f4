"""Random engines: records, level memory, helpers, archetypes with every kind of field and callback, a level, a history of frames."""

from __future__ import annotations

import copy

from .srcgen import ARR, REC, Gen, Scope, ann, size

SEQ = {"play": {"preprocess", "update_sequential", "touch"}, "watch": {"preprocess", "update_sequential"}, "preview": {"preprocess"}}
CALLBACKS = {
    "play": ["preprocess", "spawn_order", "should_spawn", "initialize", "update_sequential", "touch", "update_parallel", "terminate"],
    "watch": ["preprocess", "spawn_time", "despawn_time", "initialize", "update_sequential", "update_parallel", "terminate"],
    "preview": ["preprocess", "render"],
}
BASE = {"play": "PlayArchetype", "watch": "WatchArchetype", "preview": "PreviewArchetype"}
NUMS = ("i", "f")
REFS = ("ref", "refs", "reflink")
FEATURES = ("life", "score", "ident", "refs", "result", "mixins", "props", "derive", "state", "abstract", "parts", "links")
LIFE = ("perfect_increment", "great_increment", "good_increment", "miss_increment")


def isref(f):
    return f[2] not in NUMS and f[2][0] in REFS


def linked(f):
    """A reference the level gives a value."""
    return isref(f) and f[1] == "imported"


def lit(t, r, lib):
    """A constant expression usable in level data."""
    if t == "i":
        return str(r.randrange(-4, 13))
    if t == "f":
        return str(r.choice((0.5, 0.25, 1.5, -2.25, 3.0, 0.0)))
    if t[0] == REC:
        return f"{t[1]}({', '.join(lit(ft, r, lib) for _, ft in lib.recs[t[1]])})"
    if t[0] == ARR:
        return f"{ann(t)}({', '.join(lit(t[1], r, lib) for _ in range(t[2]))})"
    raise KeyError(t)


class EngGen(Gen):
    def __init__(self, rng, mode="play", cfg=None):
        super().__init__(rng, {"entities": (2, 5), "frames": (5, 12), "depth": 2, "stmts": (1, 5), "budget": 9, **(cfg or {})})
        self.mode = mode
        # each program leans to one kind of field, width and amount of inheritance
        self.lean = rng.choice((None, "imported", "memory", "shared", "exported", "data"))
        self.wide = rng.choice((1.0, 1.0, 0.4))
        self.heirs = rng.choice((0.3, 0.45, 0.85))
        self.on = {f for f in FEATURES if rng.random() < rng.choice((0.2, 0.5))}
        self.mixins = []
        self.n_level = 1
        self.arch = []  # dicts: name, base, fields [(name, storage, type, data name, default)], all fields
        self.cb = None
        self.cur = None

    # ---- declarations -----------------------------------------------------------------------------------------

    def dump(self, path, t, d=0):
        if t in NUMS:
            return [f"debug_log({path})"]
        if t[0] == "ref":
            return [f"debug_log({path}.index)"]
        q = f"d{d}"
        if t[0] == REC:
            return [x for f, ft in self.lib.recs[t[1]] for x in self.dump(f"{path}.{f}", ft, d)]
        if t[0] == "pair":
            return self.dump(f"{path}.first", t[1], d) + self.dump(f"{path}.second", t[2], d)
        if t[0] == "map":
            a, b = f"d{d}k", f"d{d}v"
            return [f"debug_log(len({path}))", [f"for {a}, {b} in {path}.items():", self.dump(a, t[1], d + 1) + self.dump(b, t[2], d + 1)]]
        return [f"debug_log(len({path}))", [f"for {q} in {path}:", self.dump(q, t[1], d + 1)]]

    def some_type(self, small=False):
        r = self.r
        k = r.random()
        if k < 0.45 * self.wide:
            return "i"
        if k < 0.6 * self.wide:
            return "f"
        recs = [n for n in self.lib.recs if size((REC, n), self.lib) <= (4 if small else 8)]
        if k < 0.8 and recs:
            return (REC, r.choice(recs))
        if k < 0.92 or small or not self.cfg["containers"]:
            return (ARR, "i", r.choice((1, 2, 3)))
        return r.choice((("var", "i", 3), ("set", "i", 2), ("map", "i", "i", 2), ("var", "i", 1), ("var", "i", 4)))

    def fields(self, room):
        """New fields of one archetype; `room` is what is left per storage."""
        r = self.r
        out = []
        kinds = ["imported", "imported", "memory", "memory", "memory", "shared", "data"]
        if self.mode == "play":
            kinds.append("exported")
        if self.mode == "preview":
            kinds = ["imported", "imported", "shared", "data"]
        if self.lean in kinds:
            kinds += [self.lean] * len(kinds)
        for _ in range(r.choice((1, 2, 3, 4))):
            st = r.choice(kinds)
            pool = {"imported": "data", "data": "data"}.get(st, st)
            t = self.some_type(small=st != "memory")
            if st in ("imported", "exported", "data") and t not in NUMS and t[0] not in (REC, ARR):
                t = "i"
            n = size(t, self.lib)
            if room[pool] < n:
                continue
            room[pool] -= n
            nm = f"{st[0] if st != 'data' else 'g'}{self.fresh('_')}"
            if st in ("memory", "shared") and self.arch and "refs" in self.on and r.random() < 0.3:
                room[pool] += n - 1
                t = ("ref", r.choice([a["name"] for a in self.arch] + ["Any"]))
            key = nm
            dflt = None
            if st in ("imported", "exported") and r.random() < 0.3:
                key = f"#{nm.upper()}"
            if st == "imported" and t in NUMS and r.random() < 0.3:
                dflt = r.choice((1, 2, 0.5 if t == "f" else 6, -3))
            out.append((nm, st, t, key, dflt))
        return out

    def decl(self, f):
        nm, st, t, key, dflt = f
        if st == "imported":
            a = [f"name={key!r}"] * (key != nm) + [f"default={dflt}"] * (dflt is not None)
            return f"{nm}: {ann(t) if not isinstance(t, str) or t in NUMS else t} = imported({', '.join(a)})"
        if st == "exported":
            return f"{nm}: {ann(t)} = exported({f'name={key!r}' if key != nm else ''})"
        return f"{nm}: {ann(t)} = {dict(memory='entity_memory', shared='shared_memory', data='entity_data')[st]}()"

    def scope(self, a, cb):
        """What a callback of an archetype can name."""
        seq = cb in SEQ[self.mode]
        pre = cb == "preprocess"
        may = {"imported": pre, "data": pre, "memory": True, "shared": seq}
        sc = Scope()
        for f in a["all"]:
            nm, st, t, _, _ = f
            if st == "exported":
                continue
            if isref(f):
                if t[0] == "ref":
                    sc.refs.append((f"self.{nm}", t[1], may[st]))
                elif t[0] == "refs":
                    sc.refs += [(f"self.{nm}[0]", t[1], pre), (f"self.{nm}[1]", t[1], pre)]
                else:
                    sc.refs.append((f"self.{nm}.to", t[1], pre))
                    sc.paths.append((f"self.{nm}.w", "i", pre))
                if st == "imported":
                    # the level says what it refers to
                    ref = sc.refs[-1][0] if t[0] != "refs" else f"self.{nm}[{self.r.randrange(2)}]"
                    sc.paths += self.seen(f"{ref}.get()", t[1], pre, seq)
                continue
            sc.paths.append((f"self.{nm}", t, may[st]))
        sc.paths.append(("self.index", "i", False))
        for p in a["props"]:
            sc.paths.append((f"self.{p}", "i", False))
        self.beyond(sc, a, pre)
        for owner, nm, t, w in self.lib.level:
            if self.mode != "preview":
                sc.paths.append((f"{owner}.{nm}", t, seq if w == "memory" else pre))
        if self.mode in ("play", "watch") and cb not in ("preprocess", "spawn_order"):
            self.clock(sc)
        return sc

    def seen(self, of, name, pre, seq):
        """What is visible of another entity."""
        a = self.named(name)
        out = [(f"{of}.{f[0]}", f[2], {"imported": pre, "data": pre, "shared": seq}[f[1]]) for f in a["all"]
               if f[1] in ("imported", "data", "shared") and (f[2] in NUMS or f[2][0] in (REC, ARR))]
        return out + [(f"{of}.{p}", "i", False) for p in a["props"]]

    def named(self, name):
        return next(a for a in self.arch if a["name"] == name)

    def beyond(self, sc, a, pre):
        """What the engine keeps for an entity beside its fields."""
        on, r = self.on, self.r
        reg = [x["name"] for x in self.arch if not x["abstract"]]
        if self.mode in ("play", "watch"):
            if "life" in on:
                sc.paths.append((f"self.entity_life.{r.choice(LIFE)}", "i", pre))
                sc.paths.append((f"self.{r.choice(('life', 'archetype_life'))}.{r.choice(LIFE)}", "i", pre))
                if reg:
                    sc.paths.append((f"{r.choice(reg)}.{r.choice(('life', 'archetype_life'))}.{r.choice(LIFE)}", "i", pre))
            if "score" in on:
                sc.paths.append(("self.entity_score_multiplier", "f", pre))
                sc.paths.append(("self.archetype_score_multiplier", "f", pre))
                if reg:
                    sc.paths.append((f"{r.choice(reg)}.archetype_score_multiplier", "f", pre))
            if "result" in on:
                sc.paths.append(("self.result.bucket_value", "f", True))
                sc.paths.append(("self.result.bucket.id", "i", False))
                sc.paths += [("self.result.accuracy", "f", True), ("self.result.judgment", "i", False)] if self.mode == "play" else [("self.result.target_time", "f", True)]
        if "ident" in on:
            sc.paths += [("self.is_scored", "i", False), ("self.key", "i", False)]
            if reg:
                sc.paths += [(f"{r.choice(reg)}.key", "i", False), (f"(self.id == {r.choice(reg)}.id)", "i", False)]
        if "state" in on:
            sc.paths += [(f"self.is_{x}", "i", False) for x in {"play": ("waiting", "active", "despawned"), "watch": ("active",)}.get(self.mode, ())]

    def clock(self, sc):
        sc.paths += [("time()", "f", False), ("delta_time()", "f", False), ("prev_time()", "f", False)]
        if self.mode == "watch":
            sc.paths.append(("is_skip()", "i", False))
        if self.mode == "tutorial":
            sc.paths.append(("navigation_direction()", "i", False))

    def helpers_of(self, n):
        out = []
        for _ in range(n):
            kind = self.r.choice(("i", "i", "f", None, "maybe", "gen") if self.cfg["yield"] else ("i", "i", "f", None, "maybe"))
            out.append(self.helper(kind))
        return out

    # ---- statements about entities -----------------------------------------------------------------------------

    def stmt(self, sc, d, out):
        r = self.r
        if self.cur is not None and r.random() < 0.14:
            for k in r.sample(("despawn", "spawn", "export", "method", "touch", "other", "beside", "ref", "ref"), 3):
                if getattr(self, "en_" + k)(sc, d, out):
                    return
        super().stmt(sc, d, out)

    def en_despawn(self, sc, d, out):
        if self.mode != "play" or self.r.random() < 0.5:
            return False
        k = self.r.random()
        if k < 0.5:
            out.append([f"if {self.cond(sc, 1)}:", ["self.despawn = True"]])
        elif k < 0.75:
            out.append(f"self.despawn = {self.cond(sc, 1)}")
        elif k < 0.85:
            v = self.fresh()
            out += [f"{v} = self.despawn", f"self.despawn = {self.cond(sc, 1)}", f"debug_log({v})"]
        else:
            out.append(f"debug_log(self.despawn + {self.leaf_i(sc)})")
        return True

    def en_spawn(self, sc, d, out):
        if self.mode != "play":
            return False
        ts = [a for a in self.arch if not a["abstract"] and not any(linked(f) for f in a["all"])]
        if not ts:
            return False
        a = self.r.choice(ts)
        fs = [f for f in a["all"] if f[1] == "memory"]
        pick = [f for f in fs if self.r.random() < 0.7]
        if self.r.random() < 0.2:
            self.r.shuffle(pick)
        args = ', '.join(f'{f[0]}={self.ref_of(sc, f[2][1]) if isref(f) else self.arg(sc, f[2], 1)}' for f in pick)
        who = a["name"] if self.r.random() < 0.85 else f"get_archetype_by_name({a['title']!r})"
        out.append([f"if {self.cond(sc, 1)}:", [f"{who}.spawn({args})"]])
        return True

    def en_export(self, sc, d, out):
        fs = [f for f in self.cur["all"] if f[1] == "exported"]
        if not fs:
            return False
        f = self.r.choice(fs)
        if f[2] not in NUMS and self.r.random() < 0.5:
            # a part of it only
            ps = []
            self.expand(f"self.{f[0]}", f[2], True, ps)
            ps = [p for p in ps[1:] if p[0] != f"self.{f[0]}" and p[0].count("§") <= 1]
            if ps:
                tx, t, _ = self.r.choice(ps)
                if "§" in tx:
                    tx = tx.replace("§", f"({self.int_(sc, 1)}) % {self.width(f[2], tx[len(f[0]) + 5: tx.index('[§')])}")
                out.append(f"{tx} = {self.value(sc, t, 1)}")
                return True
        out.append(f"self.{f[0]} = {self.value(sc, f[2], 1)}")
        return True

    def width(self, t, path):
        """Length of the array at a path of field names and indices."""
        for x in path.replace("]", "").replace("[", ".").split("."):
            if x:
                t = t[1] if t[0] == ARR else dict(self.lib.recs[t[1]])[x]
        return t[2]

    def en_method(self, sc, d, out):
        ms = [m for m in self.cur["methods"] if m[2] <= {self.cb}]
        ms = [m for m in self.cur["methods"] if self.cb in m[2]]
        if not ms:
            return False
        m = self.r.choice(ms)
        v = self.fresh()
        out.append(f"{v} = self.{m[0]}({', '.join(self.num(sc, t, 1) for _, t in m[1])})")
        sc.names[v] = "i"
        return True

    def en_touch(self, sc, d, out):
        if self.mode != "play" or self.cb != "touch":
            return False
        t = self.fresh("t")
        s = sc.copy()
        s.paths += [(f"{t}.id", "i", False), (f"{t}.position.x", "f", False), (f"{t}.start_time", "f", False), (f"{t}.started", "i", False)]
        self.loop += 1
        out.append([f"for {t} in touches():", self.block(s, self.r.choice((1, 2)), d - 1)])
        self.loop -= 1
        return True

    def some_entity(self, sc, out):
        k = self.fresh("k")
        out.append(f"{k} = ({self.int_(sc, 1)}) % {self.n_level}")
        sc.names[k] = "i"
        sc.ro.add(k)
        return k

    def en_other(self, sc, d, out):
        """Looking at an entity by index, whatever it is."""
        r = self.r
        if not self.arch:
            return False
        a = r.choice(self.arch)
        k = self.some_entity(sc, out)
        strict = r.random() < 0.2
        self.look(sc, out, a["name"], f"{a['name']}.at({k}{r.choice(('', '', ', check=False'))})", f"{a['name']}.is_at({k}{', strict=True' if strict else ''})")
        return True

    def look(self, sc, out, name, of, guard):
        """Reads or writes what is visible of an entity that may be of some archetype."""
        r = self.r
        pre, seq = self.cb == "preprocess", self.cb in SEQ[self.mode]
        ps = []
        for p in self.seen(of, name, pre, seq):
            self.expand(*p, ps)
        ps = [p for p in ps if p[1] in NUMS and "§" not in p[0]]
        if self.mode in ("play", "watch"):
            if "life" in self.on:
                ps.append((f"{of}.{r.choice(('entity_life', 'archetype_life', 'life'))}.{r.choice(LIFE)}", "i", pre))
            if "score" in self.on:
                ps.append((f"{of}.{r.choice(('entity', 'archetype'))}_score_multiplier", "f", pre))
            if "state" in self.on:
                ps += [(f"{of}.is_{x}", "i", False) for x in (("waiting", "active", "despawned") if self.mode == "play" else ("active",))]
        if "ident" in self.on:
            ps += [(f"{of}.key", "i", False), (f"{of}.is_scored", "i", False)]
        v = self.fresh()
        if not ps:
            out.append(f"{v} = ({guard}) + 0")
            sc.names[v] = "i"
            return
        tx, t, w = r.choice(ps)
        out.append(f"{v} = 0" if t == "i" else f"{v} = 0.0")
        body = [f"{v} = {tx} + 0"]
        if w and r.random() < 0.6:
            body.append(f"{tx} = {self.bound(v if r.random() < 0.3 else self.num(sc, t, 1), t)}")
        if self.cfg["err"] and r.random() < 0.25:
            out += body
        else:
            out.append([f"if {guard}:", body])
        sc.names[v] = t

    # ---- what the engine keeps beside an entity's fields ----

    def en_beside(self, sc, d, out):
        r = self.r
        for k in r.sample(("life", "result", "info"), 3):
            if k in self.on and k == "life" and self.cb == "preprocess" and self.mode in ("play", "watch"):
                reg = [a["name"] for a in self.arch if not a["abstract"]]
                who = r.choice(["self.entity_life", "self.archetype_life", "self.life"] + [f"{a}.archetype_life" for a in reg])
                names = r.sample(LIFE, r.choice((1, 2, 4)))
                if r.random() < 0.2:
                    args = [self.bound(self.int_(sc, 0), "i") for _ in range(r.choice((1, 2)))]
                else:
                    args = [f"{n}={self.bound(self.int_(sc, 1), 'i')}" for n in names]
                out.append(f"{who}.update({', '.join(args)})")
                return True
            if k in self.on and k == "result" and self.mode in ("play", "watch"):
                j = r.randrange(3)
                if j == 0 or self.mode == "watch":
                    out.append(r.choice((f"self.result.bucket = Bucket(({self.int_(sc, 1)}) % 9)", f"self.result.bucket.id = ({self.int_(sc, 1)}) % 9")))
                elif j == 1:
                    out.append(f"self.result.judgment = Judgment.{r.choice(('MISS', 'PERFECT', 'GREAT', 'GOOD'))}")
                else:
                    out.append(f"self.result.haptic = HapticType.{r.choice(('NONE', 'LIGHT', 'LONG'))}")
                return True
            if k == "info" and "state" in self.on and self.arch and self.mode in ("play", "watch", "preview"):
                n = self.some_entity(sc, out)
                reg = [a["name"] for a in self.arch if not a["abstract"]]
                v = self.fresh()
                es = [f"entity_info_at({n}).index"]
                if reg:
                    es.append(f"(entity_info_at({n}).archetype_id == {r.choice(reg)}.id)")
                if self.mode != "preview":
                    es.append(f"entity_info_at({n}).state")
                out.append(f"{v} = {r.choice(es)} + 0")
                sc.names[v] = "i"
                return True
        return False

    # ---- references to entities ----

    def ref_of(self, sc, want):
        """A reference that may be stored where EntityRef[want] is."""
        r = self.r
        t = want if want != "Any" else r.choice([a["name"] for a in self.arch] + ["Any"])
        fit = [x for x in sc.refs if want == "Any" or x[1] != "Any" and self.isa(x[1], want)]
        k = r.random()
        if fit and k < 0.4:
            return r.choice(fit)[0]
        if self.cur in self.arch and (want == "Any" or self.isa(self.cur["name"], want)) and k < 0.6:
            return "self.ref()"
        if sc.refs and k < 0.7:
            return f"{r.choice(sc.refs)[0]}.with_archetype({t})"
        subs = [a["name"] for a in self.arch if want == "Any" or self.isa(a["name"], want)]
        if k < 0.8 and subs:
            return f"{r.choice(subs)}.at(({self.int_(sc, 1)}) % {self.n_level}, check=False).ref()"
        if fit and k < 0.85:
            return f"+{r.choice(fit)[0]}"
        return f"EntityRef[{t}]({r.choice(('', 'index='))}({self.int_(sc, 1)}) % {self.n_level})"

    def en_ref(self, sc, d, out):
        r = self.r
        if not self.arch or "refs" not in self.on and not sc.refs:
            return False
        k = r.randrange(6)
        if k == 0 or not sc.refs:
            t = r.choice([a["name"] for a in self.arch] + ["Any"])
            e = self.ref_of(sc, t)
            if e.startswith("EntityRef["):
                t = e[10: e.index("]")]
            elif e.endswith(")") and ".with_archetype(" in e:
                t = e[e.rindex("(") + 1: -1]
            elif e == "self.ref()":
                t = None
            elif e.endswith(".ref()"):
                t = e[: e.index(".")]
            else:
                t = next(x[1] for x in sc.refs if x[0] == e.lstrip("+"))
            v = self.fresh("r")
            out.append(f"{v} = {e}")
            if t is not None:
                sc.refs.append((v, t, e[0] in "+E"))
            else:
                out.append(f"debug_log({v}.index)")
            return True
        x = r.choice(sc.refs)
        ws = [y for y in sc.refs if y[2]]
        if k in (1, 2) and ws:
            w = r.choice(ws)
            if r.random() < 0.2:
                out.append(f"{w[0]}.index = ({self.int_(sc, 1)}) % {self.n_level}")
            elif w[0].isidentifier():
                fit = [y for y in sc.refs if y[1] == w[1]]
                out.append(f"{w[0]} @= {r.choice(fit)[0]}")
            else:
                out.append(f"{w[0]} = {self.ref_of(sc, w[1])}")
            return True
        if k == 3:
            y = r.choice([y for y in sc.refs if y[1] == x[1]])
            v = self.fresh()
            out.append(f"{v} = ({x[0]} {r.choice(('==', '!='))} {y[0]}) + {r.choice((0, 0, x[0] + '.index'))}")
            sc.names[v] = "i"
            return True
        t = x[1] if x[1] != "Any" and r.random() < 0.6 else r.choice([a["name"] for a in self.arch])
        strict = "strict=True" if r.random() < 0.2 else ""
        if t == x[1]:
            guard, of = f"{x[0]}.archetype_matches({strict})", f"{x[0]}.get({r.choice(('', '', 'check=False'))})"
        else:
            guard = r.choice((f"{t}.is_at({x[0]}.index{', ' + strict if strict else ''})", f"{x[0]}.with_archetype({t}).archetype_matches({strict})"))
            of = r.choice((f"{x[0]}.get_as({t})", f"{x[0]}.with_archetype({t}).get()"))
        self.look(sc, out, t, of, guard)
        return True

    # ---- archetypes ---------------------------------------------------------------------------------------------

    def body(self, a, cb, extra=()):
        sc = self.scope(a, cb)
        self.cb, self.cur = cb, a
        self.budget = self.cfg["budget"]
        self.loop = 0
        self.can_log = True
        self.in_fn = None if cb in ("spawn_order", "should_spawn", "spawn_time", "despawn_time") else "none"
        out = list(extra)
        out += self.block(sc, self.r.randint(*self.cfg["stmts"]), self.cfg["depth"], own=True)
        if cb in ("spawn_order", "spawn_time"):
            out.append(f"return {self.bound(self.num(sc, 'f', 1), 'f')}")
        elif cb == "despawn_time":
            out.append(f"return {self.bound(self.num(sc, 'f', 1), 'f')} + {self.r.choice((2, 70))}")
        elif cb == "should_spawn":
            out.append(f"return {self.cond(sc, 1)} or time() >= {self.r.choice((0.5, 1, 2))}" if self.r.random() < 0.8 else "return True")
        self.cur = None
        self.in_fn = None
        return out

    def mixin(self, k):
        """A class that is no archetype itself: fields and callbacks for those that take it in."""
        r = self.r
        a = self.entry(f"M{k}", None, self.fields({"data": 5, "memory": 8, "shared": 5, "exported": 3}))
        a["sup"] = r.random() < 0.4
        body = [self.decl(f) for f in a["own"]]
        d = [x for f in a["own"] if f[1] != "exported" for x in self.dump(f"self.{f[0]}", f[2])]
        body.append([f"def dump{k}(self):", d])
        a["dumps"] = [f"self.dump{k}()"]
        for cb in r.sample(CALLBACKS[self.mode], 2):
            self.write_callback(a, cb, body, [f"self.dump{k}()"] if r.random() < 0.5 else [], a["sup"])
        self.mixins.append(a)
        return [f"class {a['name']}:", body]

    def entry(self, name, base, own, mix=()):
        every = (list(base["all"]) if base else []) + [f for m in mix for f in m["own"]] + own
        return {"name": name, "title": name, "base": base["name"] if base else None, "own": own, "all": every, "room": {}, "derived": base is not None,
                "methods": list(base["methods"]) if base else [], "props": list(base["props"]) if base else [], "mix": list(mix) + (list(base["mix"]) if base else []),
                "abstract": False, "brim": bool(base and base["brim"]), "key": base["key"] if base else -1, "scored": base["scored"] if base else False}

    def write_callback(self, a, cb, body, extra, sup):
        r = self.r
        if sup and r.random() < 0.5:
            call = f"super().{cb}()"
            if cb in ("spawn_order", "should_spawn", "spawn_time", "despawn_time"):
                call = f"debug_log({call})"
            extra.append(call)
        if cb in ("preprocess", "spawn_order", "update_sequential", "touch") and r.random() < 0.35:
            body.append(f"@callback(order={r.choice((-2, -1, 1, 2, 5))})")
        body.append([f"def {cb}(self):", self.body(a, cb, extra)])

    def archetype(self, k):
        r = self.r
        name = f"A{k}"
        bases = [a for a in self.arch if not a["brim"] and (not a["derived"] or r.random() < 0.5)]
        base = r.choice(bases) if bases and r.random() < self.heirs else None
        room = dict(base["room"]) if base else {"data": 22, "memory": 50, "shared": 22, "exported": 12}
        mix = []
        for m in self.mixins:
            if r.random() < 0.5 and m not in (base["mix"] if base else []):
                mix.append(m)
                for f in m["own"]:
                    pool = {"imported": "data", "data": "data"}.get(f[1], f[1])
                    room[pool] -= size(f[2], self.lib)
        if any(v < 0 for v in room.values()):
            return None
        # bases in order: the archetype among the mixins, after those that call on
        order = sorted(mix, key=lambda m: (not m["sup"], r.random()))
        cut = r.randint(sum(m["sup"] for m in order), len(order))
        first, after = order[:cut], order[cut:]
        own = self.fields(room)
        src = []
        if self.arch and r.random() < 0.5 and room["data"] > 1:
            t = r.choice(self.arch)["name"]
            kind = r.choice(("ref", "refs", "reflink")) if "links" in self.on else "ref"
            if kind == "reflink" and t not in self.links:
                self.links.add(t)
                src += [f"class Lk{t}(Record):", [f"to: EntityRef[{t}]", "w: int"]],
            own.append((f"link{k}", "imported", (kind, t), f"link{k}", None))
            room["data"] -= 2
        brim = r.random() < 0.06 and not mix
        if brim:  # every slot there is, in one kind of storage or another
            held = (list(base["all"]) if base else []) + own
            for st, limit in (("memory", 64), ("data", 32), ("shared", 32), ("exported", 32)):
                if r.random() < 0.5 or (st in ("memory", "exported") and self.mode == "preview") or (st == "exported" and self.mode != "play"):
                    continue
                pool = ("imported", "data") if st == "data" else (st,)
                n = limit - sum(size(f[2], self.lib) for f in held if f[1] in pool)
                st = r.choice(pool)
                nm = self.fresh("p_")
                own.append((nm, st, (ARR, "i", n), nm, None))
                room["data" if st == "imported" else st] = 0
        a = self.entry(name, base, own, [*reversed(after), *reversed(first)])
        a["brim"] = brim
        a["room"] = room
        a["abstract"] = "abstract" in self.on and r.random() < 0.4
        self.arch.append(a)
        body = [self.decl(f) for f in own]
        if r.random() < 0.15:
            a["title"] = f"N{k}"
            body.insert(0, f"name = {a['title']!r}")
        if "ident" in self.on:
            if r.random() < 0.5:
                a["key"] = r.choice((0, 1, 2, 7, -3, 12))
                body.insert(0, f"key = {a['key']}")
            if r.random() < 0.5:
                a["scored"] = r.random() < 0.7
                body.insert(0, f"is_scored = {a['scored']}")
        # what all may see of it, worked out on demand
        if "props" in self.on and r.random() < 0.6:
            sc = Scope()
            sc.paths = [(f"self.{f[0]}", f[2], False) for f in a["all"] if f[1] in ("imported", "data", "shared") and not isref(f)] + [("self.index", "i", False)]
            save, self.can_log = self.can_log, False
            self.cfg["err"], err = 0.0, self.cfg["err"]
            self.budget, self.loop, self.in_fn = 0, 0, "i"
            body += ["@property", [f"def q{k}(self):", [f"return {self.bound(self.int_(sc, 2), 'i')}"]]]
            self.can_log, self.in_fn, self.cfg["err"] = save, None, err
            a["props"].append(f"q{k}")
        # a helper method every callback may call
        if r.random() < 0.5:
            m = f"m{k}"
            args = [(self.fresh("p"), "i") for _ in range(r.choice((0, 1, 2)))]
            save = self.cfg["err"]
            self.cfg["err"] = 0.0
            sc = self.scope(a, "update_parallel" if self.mode != "preview" else "render")
            sc.paths = [p for p in sc.paths if not p[0].startswith("time") and not p[0].startswith("delta")]
            for n, t in args:
                sc.names[n] = t
                sc.ro.add(n)
            self.budget, self.loop, self.in_fn, self.cb = 5, 0, "i", "update_parallel"
            mb = self.block(sc, r.choice((1, 2, 3)), 1, own=True)
            mb.append(f"return {self.bound(self.int_(sc, 1), 'i')}")
            self.in_fn = None
            self.cfg["err"] = save
            body.append([f"def {m}({', '.join(['self'] + [n for n, _ in args])}):", mb])
            a["methods"] = a["methods"] + [(m, args, set(CALLBACKS[self.mode]))]
        # everything the entity holds, for all to see
        d = [x for f in own if f[1] != "exported" and (not isref(f) or f[2][0] == "ref") for x in self.dump(f"self.{f[0]}", f[2])]
        d += [x for m in mix for x in m["dumps"]]
        if base is None and self.mode in ("play", "watch"):
            if "life" in self.on:
                d += [f"debug_log(self.{w}_life.{n})" for w in ("entity", "archetype") for n in LIFE]
            if "score" in self.on:
                d += [f"debug_log(self.{w}_score_multiplier)" for w in ("entity", "archetype")]
            if "result" in self.on:
                d += ["debug_log(self.result.bucket.id)", *(["debug_log(self.result.judgment)", "debug_log(self.result.haptic)"] if self.mode == "play" else [])]
        body.append(["def dump(self):", (["super().dump()"] if base else []) + d])
        for cb in CALLBACKS[self.mode]:
            p = {"update_sequential": 0.9, "preprocess": 0.6, "touch": 0.4, "should_spawn": 0.6, "spawn_order": 0.35, "terminate": 0.5, "render": 0.9, "update_parallel": 0.6, **self.cfg.get("probs", {})}.get(cb, 0.4)
            if base or mix:
                p *= 0.6
            if r.random() >= p:
                continue
            extra = []
            if cb in ("update_sequential", "terminate", "render", *self.cfg.get("dump", ())):
                extra.append("self.dump()")
            self.write_callback(a, cb, body, extra, base is not None or bool(mix) or r.random() < 0.2)
        sup = [m["name"] for m in first] + [a["base"] or BASE[self.mode]] + [m["name"] for m in after]
        src.append([f"class {name}({', '.join(sup)}):", body])
        return src

    def derived(self, k):
        """Another archetype of the same fields and callbacks."""
        r = self.r
        bases = [a for a in self.arch if not a["abstract"] and "like" not in a]
        if not bases:
            return []
        b = r.choice(bases)
        a = self.entry(f"V{k}", b, [])
        a.update(room=dict(b["room"]), title=f"Variant{k}", scored=r.random() < 0.5, like=b["name"])
        args = [repr(a["title"]), r.choice(("", "is_scored=")) + str(a["scored"])]
        if r.random() < 0.6:
            a["key"] = r.choice((3, 4, 5, -7))
            args.append(f"key={a['key']}")
        self.arch.append(a)
        return [f"{a['name']} = {b['name']}.derive({', '.join(args)})"]

    def probe(self):
        """Reads back, last in the frame, everything that several entities share."""
        body = []
        for owner, nm, t, _ in self.lib.level:
            body += self.dump(f"{owner}.{nm}", t)
        return ["class Probe(PlayArchetype):" if self.mode == "play" else f"class Probe({BASE[self.mode]}):",
                [*(["@callback(order=100)"] if self.mode != "preview" else []), ["def update_sequential(self):" if self.mode != "preview" else "def render(self):", body]]]

    def level_memory(self):
        r = self.r
        out = []
        for owner, kind in (("L", "memory"), ("D", "data")):
            if kind == "data" and r.random() < 0.5:
                continue
            fs = []
            for _ in range(r.choice((2, 3, 4))):
                t = self.some_type()
                if kind == "data" and t not in NUMS and t[0] in ("var", "set", "map"):
                    t = "i"
                nm = self.fresh("z")
                fs.append(f"{nm}: {ann(t)}")
                self.lib.level.append((owner, nm, t, kind))
            out.append(f"@level_{kind}")
            out.append([f"class {owner}:", fs])
        return out

    def tick(self):
        self.lib.helpers.append(("tick", [("x", "i")], "i", False))
        return ["def tick(x):", ["debug_log(x)", "return x"]]

    def free(self, name, write, ret=None):
        """A callback that belongs to no entity."""
        sc = Scope()
        for owner, nm, t, w in self.lib.level:
            sc.paths.append((f"{owner}.{nm}", t, w == "memory" if write == "all" else write))
        if name != "preprocess":
            self.clock(sc)
        self.budget, self.loop, self.can_log, self.in_fn, self.cb = self.cfg["budget"], 0, True, ret or "none", name
        out = []
        if name in ("update", "update_spawn"):
            for owner, nm, t, _ in self.lib.level:
                out += self.dump(f"{owner}.{nm}", t)
        out += self.block(sc, self.r.randint(*self.cfg["stmts"]), self.cfg["depth"], own=True)
        if ret == "f":
            out.append(self.r.choice(("return time()", "return time()", f"return {self.bound(self.num(sc, 'f', 1), 'f')} + time()", "return max(time() - 0.25, 0)")))
        self.in_fn = None
        return [f"def {name}():", out]

    def program(self):
        r = self.r
        src = []
        for _ in range(r.choice((1, 2, 3))):
            src.append(self.record())
        src.append(self.tick())
        self.cfg["opaque"] = self.cfg["err"] and self.mode != "preview"
        if self.cfg["opaque"]:
            src += ["@level_memory", ["class Z:", ["zero: int"]], ["def rt(x):", ["return x + Z.zero"]]]
        src += self.helpers_of(r.choice((1, 2, 3)))
        if self.mode != "preview":
            src += self.level_memory()
        self.drop = []
        if self.mode == "tutorial":
            for cb in ("preprocess", "navigate", "update"):
                src.append(self.free(cb, "all"))
            return [*src, "PREPROCESS, NAVIGATE, UPDATE = preprocess, navigate, update"]
        self.n_level = r.randint(*self.cfg["entities"])
        self.cur = None
        self.links = set()
        if "mixins" in self.on:
            src += [self.mixin(k) for k in range(r.choice((1, 1, 2)))]
        for k in range(r.choice((1, 2, 2, 3)) + (self.heirs > 0.5)):
            src += self.archetype(k) or []
            if "derive" in self.on and r.random() < 0.5:
                src += self.derived(k)
        src.append(self.probe())
        if self.mode == "watch":
            src += [self.free("update_spawn", False, "f"), "UPDATE_SPAWN = update_spawn"]
        # everything that may be spawned, linked to or put in the level is registered
        for a in self.arch:  # only what others extend may be left out
            if a["abstract"] and not any(self.isa(x["name"], a["name"]) and not x["abstract"] for x in self.arch):
                a["abstract"] = False
        reg = [a for a in self.arch if not a["abstract"]]
        names = [a["name"] for a in reg]
        lv, ents = [], []
        for k in range(self.n_level):
            a = r.choice(reg) if reg else {"name": "Probe", "all": []}
            args = []
            ok = True
            gone = []
            for nm, st, t, key, _ in a["all"]:
                if st == "data":
                    continue
                if t not in NUMS and t[0] in REFS:
                    if st != "imported":
                        continue
                    cand = [e for e, an in ents if self.isa(an, t[1])]
                    if not cand:
                        ok = False
                        break
                    x, y = (f"{r.choice(cand)}.ref()" for _ in "xy")
                    args.append(f"{nm}=" + {"ref": x, "refs": f"{ann(t)}({x}, {y})", "reflink": f"{ann(t)}({x}, {r.randrange(9)})"}[t[0]])
                elif st == "imported" and r.random() < 0.85:
                    args.append(f"{nm}={lit(t, r, self.lib)}")
                if st == "imported" and t in NUMS and r.random() < 0.12:
                    gone.append([k, key])
            if not ok:
                a = {"name": "Probe"}
                args, gone = [], []
            # a level of other tools lacks entries: the declared default applies
            self.drop += gone
            lv.append(f"e{k} = {a['name']}({', '.join(args)})")
            ents.append((f"e{k}", a["name"]))
        lv.append("pz = Probe()")
        src += [f"ARCHETYPES = [{', '.join(sorted(names, key=lambda n: r.random()))}, Probe]", *lv, f"LEVEL = [{', '.join(e for e, _ in ents)}, pz]"]
        return src

    def isa(self, name, want):
        while name is not None:
            if name == want:
                return True
            a = next((a for a in self.arch if a["name"] == name), None)
            name = a and a["base"]
        return False

    def frames(self):
        r = self.r
        t = 0.0
        out = []
        for _ in range(r.randint(*self.cfg["frames"])):
            dt = r.choice((0.0, 0.015625, 0.015625, 0.25, 0.5, 1.0, 2.0))
            t += dt
            touches = []
            if self.mode == "play" and r.random() < 0.4:
                for k in range(r.choice((1, 1, 2, 3))):
                    touches.append([float(r.randrange(6)), float(r.random() < 0.5), float(r.random() < 0.3), t, t - 0.25] + [r.choice((0.0, 0.5, -1.25, 2.0)) for _ in range(10)])
            f = {"time": t, "delta": dt}
            if self.mode == "play":
                f["touches"] = touches
            elif self.mode == "watch":
                if r.random() < 0.15:  # the viewer jumps in the replay
                    f["skip"] = 1.0
                    f["time"] = t = max(0.0, t + r.choice((-2.0, -0.5, 3.0)))
            elif self.mode == "tutorial" and r.random() < 0.4:
                f["navigation"] = r.choice((-1.0, 1.0))
            out.append(f)
        return out


def plan_copy(p):
    return copy.deepcopy(p)
