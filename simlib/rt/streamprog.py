"""Random engines that record streams during play and replay them in watch mode."""

from __future__ import annotations

from .srcgen import ARR, REC, ann

NUM = ("i", "f")
P = ("pair", "i", "f")


class StreamGen:
    def __init__(self, rng):
        self.r = rng
        self.recs = {"R0": [("a", "i"), ("b", "f")], "R1": [("p", (REC, "R0")), ("q", (ARR, "i", 2))], "E0": []}
        self.n = 0
        self.ops = 0

    def var(self):
        self.n += 1
        return f"v{self.n}"

    def elem(self):
        return self.r.choice(("i", "f", "f", (REC, "R0"), (REC, "R0"), (REC, "R1"), P, (ARR, "i", 2), (REC, "E0"), "Vec2"))

    def ann(self, t):
        return "Vec2" if t == "Vec2" else ann(t)

    def mk(self, t, a="a", b="b"):
        r = self.r
        if t == "i":
            return r.choice((a, b, f"{a} + {b}", f"{a} * 4"))
        if t == "f":
            return r.choice((f"{a} * 0.5", f"{b} * 4", f"{a} - {b} * 0.25"))
        if t == "Vec2":
            return f"Vec2({self.mk('f', a, b)}, {self.mk('f', b, a)})"
        if t[0] == REC:
            return f"{t[1]}({', '.join(self.mk(ft, x, y) for (_, ft), (x, y) in zip(self.recs[t[1]], ((a, b), (b, a))))})"
        if t[0] == ARR:
            return f"Array({self.mk(t[1], a, b)}, {self.mk(t[1], b, a)})"
        return f"Pair({self.mk(t[1], a, b)}, {self.mk(t[2], b, a)})"

    def show(self, x, t):
        if t in NUM:
            return [f"debug_log({x})"]
        if t == "Vec2":
            return [f"debug_log({x}.x)", f"debug_log({x}.y)"]
        if t[0] == REC:
            return [y for f, ft in self.recs[t[1]] for y in self.show(f"{x}.{f}", ft)]
        if t[0] == ARR:
            return [y for i in range(2) for y in self.show(f"{x}[{i}]", t[1])]
        return self.show(f"{x}.first", t[1]) + self.show(f"{x}.second", t[2])

    # ---- play ------------------------------------------------------------------------------------------------------

    def key(self):
        """The keys of a replay are mostly times, and mostly of the present; a = the operand, b = the second."""
        return self.r.choice(("time()", "time()", "time() + a * 0.0625", "a * 0.25", "b", "time() - b * 0.5", "a", "self.k * 0.125"))

    def write(self):
        r = self.r
        n, k, t, size = r.choice(self.fields)
        if k == "data":
            if t in NUM and r.random() < 0.3:
                return [f"S.{n} = time()"]
            return [f"S.{n} = {self.mk(t)}"]
        s = self.stream(n, k, size)
        m = r.random()
        if m < 0.6:
            return [f"{s}[{self.key()}] = {self.mk(t)}"]
        if m < 0.7:
            v = self.var()
            return [f"{v} = {s}", f"{v}[{self.key()}] = {self.mk(t)}", f"{v}[{self.key()}] = {self.mk(t, 'b', 'a')}"]
        if m < 0.8:
            return [[f"for q in range({r.choice((2, 3, 5))}):", [f"{s}[{r.choice(('time() + q * 0.125', 'q', 'a - q', 'q * 0.5 + b'))}] = {self.mk(t, 'q', 'a')}"]]]
        if m < 0.9 and t not in NUM:
            v = self.var()
            return [f"{v} = {self.mk(t)}", f"{s}[{self.key()}] = {v}", *([f"{v}{self.leaf(t)} += 1", f"{s}[{self.key()}] = {v}"] if self.leaf(t) else [])]
        return [[f"if a {r.choice(('>', '<', '!='))} b:", [f"{s}[{self.key()}] = {self.mk(t)}"]]]

    def leaf(self, t):
        if t == "Vec2":
            return ".x"
        if t[0] == REC:
            if not self.recs[t[1]]:
                return ""
            f, ft = self.recs[t[1]][-1]
            return f".{f}" + ("" if ft in NUM else self.leaf(ft))
        if t[0] == ARR:
            return "[1]"
        return ".second"

    def stream(self, n, k, size, a="a"):
        if k == "stream":
            return f"S.{n}"
        r = self.r
        return f"S.{n}[{r.randrange(size)}]" if r.random() < 0.4 else f"S.{n}[({a} * {a}) % {size}]"

    # ---- watch -----------------------------------------------------------------------------------------------------

    def at(self):
        return self.r.choice(("time()", "time() * 0.5", "prev_time()", "c", "c * 0.25", "c - 3", "-c", "c * 0.125 + 0.0625", "time() - c", "100", "-100"))

    def read(self):
        r = self.r
        n, k, t, size = r.choice(self.fields)
        if k == "data":
            return self.show(f"S.{n}", t)
        s = self.stream(n, k, size, "c")
        pre = []
        if r.random() < 0.3:
            v = self.var()
            pre, s = [f"{v} = {s}"], v
        m = r.randrange(11)
        key = self.at()
        x = self.var()
        if k == "group" and r.random() < 0.12:
            return [f"debug_log({r.choice(('c', '2', '-1', 'c - 1'))} in S.{n})", f"debug_log(S.{n}.size())", [f"for q in range(S.{n}.size()):", [[f"for y in S.{n}[q].iter_keys_since_previous_frame():", ["debug_log(q)", "debug_log(y)"]]]]]
        if m == 0:
            return pre + [f"{x} = {s}[{key}]", *self.show(x, t)]
        if m == 1:
            return pre + [f"debug_log({key} in {s})", f"debug_log({s}.has_next_key({key}))", f"debug_log({s}.has_previous_key({self.at()}))"]
        if m == 2:
            return pre + [f"debug_log({s}.next_key({key}))", f"debug_log({s}.previous_key({key}))", f"debug_log({s}.next_key_inclusive({self.at()}))", f"debug_log({s}.previous_key_inclusive({self.at()}))"]
        if m == 3:
            return pre + [f"debug_log({s}.next_key_or_default({key}, {r.choice(('-1', 'c', '1000'))}))", f"debug_log({s}.previous_key_or_default({self.at()}, 777))"]
        if m == 4:
            f = r.choice(("get_next", "get_previous", "get_next_inclusive", "get_previous_inclusive"))
            return pre + [f"{x} = {s}.{f}({key})", *self.show(x, t)]
        if m == 5:
            # a key that changes after the value was looked up
            return pre + [f"z = {key}", f"{x} = {s}[z]", "z += 0.5", *self.show(x, t), *self.show(f"{s}[z]", t)]
        if m == 6:
            # walking by hand
            return pre + [f"z = {r.choice(('-20', 'time() - 1', 'c'))}", "n = 0", [f"while {s}.has_next_key(z) and n < 6:", [f"z = {s}.next_key(z)", "debug_log(z)", *self.show(f"{s}[z]", t), "n += 1"]]]
        what = r.choice(("keys", "values", "items", "items"))
        if m < 9:
            head = f"iter_{what}_since_previous_frame()"
        else:
            head = f"iter_{what}_from{r.choice(('', '_desc'))}({key})"
        body = {"keys": ["debug_log(kk)"], "values": self.show("vv", t), "items": ["debug_log(kk)", *self.show("vv", t)]}[what]
        if not body:
            body = ["debug_log(1)"]
        names = {"keys": "kk", "values": "vv", "items": "kk, vv"}[what]
        q = r.random()
        if m >= 9 or q < 0.15:
            return pre + ["n = 0", [f"for {names} in {s}.{head}:", [*body, "n += 1", ["if n >= c % 7 + 2:", ["break"]]]], ["else:", ["debug_log(-1)"]]]
        if q < 0.3 and what == "items" and t in NUM:
            return pre + [[f"for kk, vv in filter(lambda e: e[1] > {r.choice((0, 1, 'c'))}, {s}.{head}):", body]]
        if q < 0.4 and what == "keys":
            return pre + [f"debug_log(sum({s}.{head}))"]
        if q < 0.5 and what == "values" and t in NUM:
            return pre + [f"debug_log(sum(y * 2 for y in {s}.{head}))"]
        if q < 0.6:
            return pre + [[f"for i, e in enumerate({s}.{head}):", ["debug_log(i)", *(["debug_log(e)"] if what == "keys" else self.show("e", t) if what == "values" else ["debug_log(e[0])", *self.show("e[1]", t)])]]]
        return pre + [[f"for {names} in {s}.{head}:", body]]

    # ---- programs --------------------------------------------------------------------------------------------------

    def program(self):
        r = self.r
        src = [["class R0(Record):", ["a: int", "b: float"]], ["class R1(Record):", ["p: R0", "q: Array[int, 2]"]], ["class E0(Record):", ["pass"]]]
        self.fields = []
        decl = []
        for i in range(r.choice((1, 2, 3, 4, 6))):
            k = r.choice(("stream", "stream", "stream", "group", "group", "data"))
            t = self.elem()
            if k == "data" and t == (REC, "E0"):
                t = "i"
            size = r.choice((1, 2, 3, 5))
            self.fields.append((f"s{i}", k, t, size))
            decl.append(f"s{i}: " + {"stream": f"Stream[{self.ann(t)}]", "group": f"StreamGroup[{self.ann(t)}, {size}]", "data": self.ann(t)}[k])
        src.append(["@streams", []]) if False else None
        src += ["@streams", ["class S:", decl]]
        names = []
        for k in range(r.choice((1, 1, 2))):
            body = ["k: int = entity_memory()"]
            lo = self.ops
            n = r.choice((2, 4, 7))
            self.ops += n
            ops = [self.write() for _ in range(n)]
            body.append(["def run(self, op, a, b):", [["match op:", [[f"case {lo + i}:", op] for i, op in enumerate(ops)]]]])
            cbs = r.sample(("touch", "update_sequential", "update_parallel"), r.choice((1, 2, 3)))
            for cb in cbs:
                loop = ["for t in touches():", ["self.run(t.id, t.position.x, t.position.y)"]]
                body.append([f"def {cb}(self):", ["self.k += 1", loop] if r.random() < 0.8 else [loop, "self.k += 1"]])
            src.append([f"class A{k}(PlayArchetype):", body])
            names.append(f"A{k}")
        wn = []
        for k in range(r.choice((1, 1, 2))):
            body = ["c: int = entity_memory()"]
            for cb in ("preprocess", "initialize", "update_sequential", "update_parallel"):
                if cb == "update_parallel" or r.random() < 0.3:
                    ops = [x for _ in range(r.choice((1, 2, 4)) if cb.startswith("update") else 1) for x in self.read()]
                    body.append([f"def {cb}(self):", ["c = self.c", *ops, *(["self.c += 1"] if cb == "update_parallel" or r.random() < 0.3 else [])]])
            name = f"W{k}" if r.random() < 0.5 and False else f"A{k}"
            src.append([f"class W{k}(WatchArchetype):", [f"name = {name!r}", *body, ["def spawn_time(self):", ["return -1000"]], ["def despawn_time(self):", ["return 1000000"]]]])
            wn.append(f"W{k}")
        while len(wn) < len(names):
            k = len(wn)
            src.append([f"class W{k}(WatchArchetype):", [f"name = 'A{k}'", ["def spawn_time(self):", ["return -1000"]], ["def despawn_time(self):", ["return 1000000"]]]])
            wn.append(f"W{k}")
        while len(names) < len(wn):
            src.append([f"class A{len(names)}(PlayArchetype):", ["pass"]])
            names.append(f"A{len(names)}")
        # every key of every stream, delivered frame by frame
        rec = []
        for j, (n, k, t, size) in enumerate(self.fields):
            if k == "stream":
                rec.append([f"for x in S.{n}.iter_keys_since_previous_frame():", [f"debug_log({1000 + j})", "debug_log(0)", "debug_log(x)"]])
            elif k == "group":
                rec.append([f"for g in range({size}):", [[f"for x in S.{n}[g].iter_keys_since_previous_frame():", [f"debug_log({1000 + j})", "debug_log(g)", "debug_log(x)"]]]])
        src.append(["class Rec(WatchArchetype):", [["def update_parallel(self):", rec or ["pass"]], ["def spawn_time(self):", ["return -1000"]], ["def despawn_time(self):", ["return 1000000"]]]])
        src.append(["class PRec(PlayArchetype):", ["name = 'Rec'"]])
        src.append(["def up():", ["return time()"]])
        ents = ["PRec()"] + [f"{r.choice(names)}()" for _ in range(r.choice((1, 2, 3)))]
        src += [f"ARCHETYPES = [{', '.join(names)}, PRec]", f"WATCH_ARCHETYPES = [Rec, {', '.join(wn)}]", "UPDATE_SPAWN = up", f"LEVEL = [{', '.join(ents)}]"]
        return src

    def play_frames(self):
        r = self.r
        out = []
        t = r.choice((0.0, 0.0, -1.5, 3.0))
        for _ in range(r.choice((0, 4, 12, 30))):
            d = r.choice((0.0, 0.015625, 0.0625, 0.25, 0.25, 0.5, 4.0))
            t += d
            ts = []
            for _ in range(r.choice((0, 1, 1, 2, 4))):
                ts.append([float(r.randrange(max(self.ops, 1))), 0.0, 0.0, t, t, float(r.choice((0, 1, 2, 3, -1, 5, 8))), float(r.choice((0, 1, 2, -2, 4)))] + [0.0] * 8)
            out.append({"time": t, "delta": d, "touches": ts})
        return out

    def watch_frames(self, play):
        r = self.r
        out = []
        last = play[-1]["time"] if play else 2.0
        t = r.choice((-2.0, 0.0, -100.0, (play[0]["time"] if play else 0.0)))
        jumps = r.random() < 0.3
        d = 0.0
        for _ in range(r.choice((5, 15, 40))):
            out.append({"time": t, "delta": d})
            x = r.random()
            if x < 0.1:
                d = 0.0
            elif x < 0.25 and play:
                # exactly onto a recorded frame
                nxt = [f["time"] for f in play if f["time"] > t]
                d = nxt[0] - t if nxt else 0.25
            elif x < 0.3 and jumps:
                d = r.choice((-4.0, -0.5, -last))
            else:
                d = r.choice((0.015625, 0.125, 0.25, 0.25, 0.5, 1.0, 8.0))
            t += d
            if d < 0:
                out.append({"time": t, "delta": 0.0, "skip": 1})
                d = 0.0
        out.append({"time": t + 1000.0, "delta": 1000.0 + 0.0})
        out[-1]["delta"] = out[-1]["time"] - out[-2]["time"]
        return out
