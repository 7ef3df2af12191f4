"""Random programs around containers that live in entity and level memory, driven by a long history of operation codes."""

from __future__ import annotations

import re

from .engprog import EngGen
from .srcgen import ARR, REC, ann, size

NUM = ("i", "f")
P = ("pair", "i", "i")


class ContGen(EngGen):
    """Every touch of a frame carries an operation code and its operands; the archetypes dispatch on it."""

    def __init__(self, rng, cfg=None):
        super().__init__(rng, "play", {"guard": True, **(cfg or {})})
        self.code = 0
        self.kinds = []  # of every code: does the operation grow a container, empty it or neither

    # ---- values --------------------------------------------------------------------------------------------------

    def mk(self, t, a="a", b="b"):
        r = self.r
        if t == "i":
            return r.choice((a, a, f"{a} + {b}", f"{a} % 3"))
        if t == "f":
            return r.choice((f"{a} * 0.5", f"{b} * 0.25", a))
        if t[0] == REC:
            return f"{t[1]}({', '.join(self.mk(ft, x, y) for (_, ft), (x, y) in zip(self.lib.recs[t[1]], ((a, b), (b, a), (a, a))))})"
        if t[0] == ARR:
            return f"{ann(t)}({', '.join(self.mk(t[1], x, y) for x, y in ((a, b), (b, a), (a, a))[:t[2]])})" if size(t, self.lib) else ""
        if t[0] == "pair":
            return f"Pair({self.mk(t[1], a, b)}, {self.mk(t[2], b, a)})"
        raise KeyError(t)

    def elem(self):
        return self.r.choice(("i", "i", "i", "f", (REC, "R0"), (REC, "R0"), (REC, "R1"), P, (ARR, "i", 2)))

    def show(self, x, t, d=0):
        return self.dump(x, t, d)

    def key(self, t):
        """Orders of an element type that depend on one of its numbers only, so that stability shows."""
        if t in NUM:
            return self.r.choice(("lambda x: x % 3", "lambda x: -x", "lambda x: x // 2"))
        if t[0] == REC:
            f, ft = self.lib.recs[t[1]][0]
            return f"lambda x: x.{f}" if ft in NUM else None
        if t[0] == ARR:
            return "lambda x: x[0]"
        if t[0] == "pair":
            return self.r.choice(("lambda x: x.first", "lambda x: x.second % 2"))
        return None

    # ---- operations ----------------------------------------------------------------------------------------------

    def guarded(self, cond, body):
        if self.guard or self.r.random() < 0.45:
            return [[f"if {cond}:", body]]
        return body

    def ops_seq(self, c, t, n):
        """Operations of everything that is like an array."""
        r = self.r
        sim = t in NUM
        el = t if not sim else None
        ok = f"0 <= b < len({c})"
        neg = f"-len({c}) <= b < len({c})"
        out = [
            self.guarded(neg, [f"{c}[b] = {self.mk(t, 'a', 'a')}"]),
            self.guarded(neg, self.show(f"{c}[b]", t)),
            self.guarded(f"{ok} and 0 <= a < len({c})", [f"{c}.swap(a, b)"]),
            [f"{c}.reverse()"],
            [f"debug_log({c}.index({self.mk(t)}))", f"debug_log({c}.last_index({self.mk(t)}))", f"debug_log({c}.count({self.mk(t, 'b', 'a')}))"],
            [f"debug_log({self.mk(t)} in {c})", f"debug_log({self.mk(t, 'b', 'b')} not in {c})"],
            [[f"for i, x in enumerate({c}{r.choice(('', ', a', ', start=2'))}):", ["debug_log(i)", *self.show("x", t, 1)]]],
            [[f"for x in reversed({c}):", self.show("x", t, 1)]],
            [[f"for x, y in zip({c}, range(b)):", [*self.show("x", t, 1), "debug_log(y)"]]],
            [[f"for x in {c}:", [["if a > b:", ["break"]], "a += 2", *self.show("x", t, 1)]], ["else:", ["debug_log(-7)"]]],
            self.guarded(f"0 < b <= len({c})", self.show(f"{c}[-b]", t)),
        ]
        if t in NUM or t == P:
            out.append(r.choice(([f"{c}.sort()"], [f"{c}.sort(reverse=True)"], [f"{c}.sort(reverse=a > b)"])))
        both = f"{ok} and 0 <= a < len({c})"
        v = self.mk(t)
        out += [
            self.guarded(neg, [f"x = reversed({c})", f"x[b] = {v}", *self.show(f"{c}[{r.choice(('b', '-b - 1'))}]", t)]),
            self.guarded(neg, self.show(f"reversed({c})[b]", t)),
            [f"debug_log({c}.index({v}, b, a))", f"debug_log({c}.index({self.mk(t, 'b', 'a')}, {r.choice(('-b', 'a', '1'))}))", f"debug_log({c}.index({v}, start=a, stop={r.choice(('-1', '-b', 'len(' + c + ') + a'))}))"],
            [[f"for i, x in enumerate(reversed({c}){r.choice(('', ', b'))}):", ["debug_log(i)", *self.show("x", t, 1)]], f"debug_log(reversed({c}).index({v}))", f"debug_log(len(reversed({c})))"],
            [[f"for x in reversed(reversed({c})):", self.show("x", t, 1)]],
            r.choice(([f"{c}.unchecked().reverse()"], [f"reversed({c}).reverse()"], [f"for i, x in enumerate({c}.unchecked()):", ["debug_log(i)", *self.show("x", t, 1)]])),
        ]
        out[-1] = [out[-1]] if out[-1][0].startswith("for") else out[-1]
        # without a check the place must be there
        out.append(r.choice(([[f"if {ok}:", self.show(f"{c}.get_unchecked(b)", t)]], [[f"if {ok}:", [f"{c}.set_unchecked(b, {v})"]]], [[f"if {both}:", [f"{c}.swap_unchecked(a, b)"]]],
                             [[f"if {ok}:", [f"x = {c}.unchecked()", f"x[b] = {v}", *self.show("x[b]", t)]]], [[f"if {both}:", [f"{c}.unchecked()[a] = {c}.unchecked()[b]"]]])))
        if t == P:
            out.append(self.guarded(both, [f"debug_log({c}[a] {op} {c}[b])" for op in ("<", "<=", ">", ">=", "==", "!=")]))
            out.append(self.guarded(f"len({c}) > 0", [f"x = {r.choice(('max', 'min'))}(Array({c}[0], Pair(a % 2, b), Pair(b % 2, a)))", *self.show("x", t), f"debug_log({c}.index_of_{r.choice(('max', 'min'))}())", f"p, q = {c}[-1].tuple", "debug_log(p - q)"]))
        if t in NUM:
            out.append([f"reversed({c}).sort({r.choice(('', 'reverse=True'))})"])
        k = self.key(t)
        if k:
            out.append([f"{c}.sort(key={k}{r.choice(('', ', reverse=True', ', reverse=b > 1'))})"])
            out.append([f"debug_log({c}.index_of_max(key={k}))", f"debug_log({c}.index_of_min(key={k}))"])
            out.append(self.guarded(f"len({c}) > 0", self.show(f"{r.choice(('max', 'min'))}({c}, key={k})", t)))
        if sim:
            out.append(self.guarded(f"len({c}) > 0", [f"debug_log(max({c}))", f"debug_log(min({c}))"]))
            out.append([f"debug_log(sum({c}))" if r.random() < 0.3 else f"debug_log(sum(x * 2 for x in {c} if x > a))", f"debug_log(any(x == b for x in {c}))", f"debug_log(all(x > b for x in {c}))"])
            out.append([f"debug_log(sum(map(lambda x: x + b, {c})))", [f"for x in filter(lambda x: x > a, {c}):", ["debug_log(x)"]]])
            out.append(self.guarded(neg, [f"{c}[b] {r.choice(('+=', '-=', '*='))} {r.choice(('1', 'a', '2'))}", f"{c}[b] = max(-50, min(50, {c}[b]))"]))
            out.append(self.guarded(f"{ok} and 0 <= a < len({c})", [f"{c}[a], {c}[b] = {c}[b], {c}[a]"]))
        else:
            # a reference to an element is the element
            f = self.leaf(t)
            out.append(self.guarded(neg, [f"x = {c}[b]", f"x{f} = a", *self.show(f"{c}[b]", t)]))
            out.append([[f"for x in {c}:", [f"x{f} {r.choice(('= a', '= b'))}"]]])
            out.append(self.guarded(f"{neg} and -len({c}) <= a < len({c})", [f"{c}[a] = {c}[b]", f"{c}[b]{f} = a + 1"]))
            out.append(self.guarded(neg, [f"x = copy({c}[b])" if r.random() < 0.5 else f"x = +{c}[b]", f"x{f} = 40", *self.show(f"{c}[b]", t), *self.show("x", t)]))
            del el
        return out

    def leaf(self, t):
        if t[0] == REC:
            f, ft = self.lib.recs[t[1]][-1]
            return f".{f}" if ft in NUM else f".{f}{self.leaf(ft)}"
        if t[0] == ARR:
            return f"[{self.r.randrange(t[2])}]" if t[1] in NUM else f"[0]{self.leaf(t[1])}"
        return ".second"

    def ops_var(self, c, t, n):
        r = self.r
        free = f"len({c}) < {n}"
        g = self.guarded
        v = self.mk(t)
        out = self.ops_seq(c, t, n)
        more = [
            g(free, [f"{c}.append({v})"]), g(free, [f"{c}.append({v})"]), g(free, [f"{c}.append({self.mk(t, 'b', 'a')})"]),
            g(free, [f"{c}.insert(0, {v})"]), g(f"{free} and -len({c}) <= b <= len({c})", [f"{c}.insert(b, {v})"]),
            [[f"if {free}:", [f"{c}.append_unchecked({v})"]]],
            g(f"len({c}) > 0", self.show_pop(f"{c}.pop()", t)), g(f"-len({c}) <= b < len({c})", self.show_pop(f"{c}.pop(b)", t)),
            g(f"-len({c}) <= b < len({c})", [f"del {c}[b]"]),
            [f"debug_log({c}.remove({v}))"], [f"debug_log({c}.set_add({v}))"], [f"debug_log({c}.set_remove({v}))"],
            [f"debug_log({c}.is_full())", f"debug_log({c}.capacity())", f"debug_log(len({c}))"],
            g(f"len({c}) + 2 <= {n}", [f"{c}.extend(Array({v}, {self.mk(t, 'b', 'b')}))" if r.random() < 0.6 else f"{c} += Array({v}, {self.mk(t, 'b', 'b')})"]),
            g(f"{free} and -len({c}) <= a < len({c})", [f"{c}.append({c}[a])"]),
            g(f"{free} and -len({c}) <= a < len({c}) and -len({c}) <= b <= len({c})", [f"{c}.insert(b, {c}[a])"]),
            g(f"-len({c}) <= a < len({c})", [f"debug_log({c}.remove({c}[a]))"]),
            g(f"-len({c}) <= a < len({c})", [f"debug_log({c}.set_remove({c}[a]))"]),
            [f"x = +{c}", ["if len(x) > 0:", ["x.pop(0)"]], f"debug_log(x == {c})", f"debug_log(x != {c})", f"debug_log({c} == +{c})", *self.show("x", ann_of(t, n), 1)],
            [f"x = +{c}", "x.clear()", "debug_log(len(x))", f"debug_log(len({c}))", ["if a > b:", [f"{c} @= x"]]],
            g(f"2 * len({c}) <= {n}", [f"{c} += {c}"]),
            [[f"while len({c}) > max(b, 1):", [f"{c}.pop()"]]],
            [f"{c}.clear()"],
        ]
        if t not in NUM:
            # what pop returns is no longer part of the array
            more.append(g(f"len({c}) > 1", [f"x = {c}.pop(0)", f"{c}[0]{self.leaf(t)} = 9", *self.show("x", t)]))
        return out + more

    def show_pop(self, call, t):
        return [f"x = {call}", *self.show("x", t)]

    def ops_set(self, c, t, n):
        v = self.mk(t)
        return [
            [f"debug_log({c}.add({v}))"], [f"debug_log({c}.add({self.mk(t, 'b', 'a')}))"], [f"debug_log({c}.add({v}))"], [f"debug_log({c}.remove({v}))"], [f"debug_log({c}.remove({self.mk(t, 'b', 'b')}))"],
            [f"debug_log({v} in {c})", f"debug_log(len({c}))"], [[f"for x in {c}:", self.show("x", t, 1)]], [f"{c}.clear()"],
            [f"x = +{c}", f"x.add({v})", "debug_log(len(x))", f"debug_log(len({c}))"],
        ]

    def ops_map(self, c, kt, vt, n):
        r = self.r
        g = self.guarded
        k, v = self.mk(kt), self.mk(vt, "b", "a")
        k2 = self.mk(kt, "b", "b")
        fits = f"(len({c}) < {n} or {k} in {c})"
        out = [
            g(fits, [f"{c}[{k}] = {v}"]), g(f"(len({c}) < {n} or {k2} in {c})", [f"{c}[{k2}] = {v}"]), g(fits, [f"{c}[{k}] = {v}"]),
            g(f"{k} in {c}", self.show(f"{c}[{k}]", vt)), g(f"{k} in {c}", self.show_pop(f"{c}.pop({k})", vt)), g(f"{k2} in {c}", [f"del {c}[{k2}]"]), g(f"{k} in {c}", [f"del {c}[{k}]", *self.dump(c, ("map", kt, vt, n))]),
            [f"debug_log({k} in {c})", f"debug_log({k2} not in {c})", f"debug_log(len({c}))", f"debug_log({c}.is_full())"],
            [[f"for x in {c}:", self.show("x", kt, 1)], [f"for x in {c}.values():", self.show("x", vt, 1)]],
            [[f"for kk, vv in {c}.items():", [*self.show("kk", kt, 1), *self.show("vv", vt, 1), ["if a > b:", ["break"]], "a += 3"]]],
            g(f"{k} in {c} and (len({c}) < {n} or {k2} in {c})", [f"{c}[{k2}] = {c}[{k}]"]),
            [f"x = +{c}", "x.clear()", f"debug_log(len({c}))"],
            [f"{c}.clear()"],
        ]
        if vt in NUM:
            out.append(g(f"{k} in {c}", [f"{c}[{k}] += 1"]))
        else:
            f = self.leaf(vt)
            out.append(g(f"{k} in {c}", [f"{c}[{k}]{f} = a"]))
            out.append([[f"for v in {c}.values():", [f"v{f} = b"]]])
            out.append(g(f"{k} in {c} and {k2} in {c}", [f"x = {c}.pop({k})", *self.show("x", vt)]))
        if r.random() < 0.3:
            out.append([[f"for kk in {c}.keys():", self.show("kk", kt, 1)]])
        return out

    def ops_other(self, c):
        r = self.r
        big = ", ".join(str(x) for x in sorted(r.sample(range(-9, 40), 17), key=lambda _: r.random()))
        small = ", ".join(str(x) for x in r.sample(range(-4, 9), r.choice((1, 3, 5))))
        return [
            [f"debug_log(a in FrozenNumSet.of({small}))", f"debug_log(b in FrozenNumSet.of({big}))"],
            ["x = FrozenNumSet.of(a, b, 3)", "debug_log(len(x))", "debug_log(3 in x)", "debug_log(a + 1 in x)", ["for q in x:", ["debug_log(q)"]]],
            [f"debug_log(a in {{{small}}})", f"debug_log(b in {{{big}}})"],
            [f"debug_log(get_positive_index(a, 6{e}))" for e in (", check=False", ", include_end=True" if r.random() < 0.5 else ", include_end=b > 2") if self.r.random() < 0.6] + ["debug_log(b)"],
            [f"debug_log(Pair(a % 2, b) {op} Pair(b % 2, a))" for op in r.sample(("<", "<=", ">", ">=", "==", "!="), 4)],
            [f"x = {{{', '.join(f'{k}: {k * 3 % 7}' for k in r.sample(range(-3, 12), 4))}}}", ["if a in x:", ["debug_log(x[a])"]], ["for kk, vv in x.items():", ["debug_log(kk + vv)"]]],
        ]

    # ---- programs ------------------------------------------------------------------------------------------------

    def container(self, room):
        r = self.r
        k = r.random()
        if k < 0.45:
            t = ("var", self.elem(), r.choice((1, 2, 3, 4, 6)))
        elif k < 0.55:
            t = ("var", r.choice(("i", "f", P)), 18)
        elif k < 0.66:
            t = ("set", r.choice(("i", "i", "f", (REC, "R0"), P)), r.choice((1, 2, 3, 5)))
        elif k < 0.87:
            t = ("map", r.choice(("i", "i", (REC, "R0"), P)), self.elem(), r.choice((1, 2, 3, 4)))
        else:
            t = (ARR, self.elem(), r.choice((1, 2, 3, 5, 16)))
        return t if size(t, self.lib) <= room else None

    def ops_of(self, c, t):
        if t[0] == "var":
            return self.ops_var(c, t[1], t[2])
        if t[0] == "set":
            return self.ops_set(c, t[1], t[2])
        if t[0] == "map":
            return self.ops_map(c, t[1], t[2], t[3])
        return self.ops_seq(c, t[1], t[2])

    def kind(self, op):
        first = str(op)
        if any(x in first for x in (".append(", ".insert(", ".extend(", ".add(", "set_add(")) or ("] = " in first and " in " in first):
            return "grow"
        if any(re.search(x, first) for x in (r"'[\w.]+\.clear\(\)'", "while len")):
            return "empty"
        return "other"

    def dispatch(self, name, cs, count):
        """A method that runs the operation with the given code; returns its node and the codes it knows."""
        r = self.r
        ops = []
        for c, t in cs:
            every = self.ops_of(c, t)
            grow = [op for op in every if self.kind(op) == "grow"]
            rest = [op for op in every if self.kind(op) != "grow"]
            k = min(len(grow), max(1, count // 3)) if grow else 0
            ops += r.sample(grow, k) + r.sample(rest, min(count - k, len(rest)))
        if r.random() < 0.3:
            ops.append(r.choice(self.ops_other(None)))
        lo = self.code
        style = r.random()
        if style < 0.6:
            body = [["match k:", [[f"case {lo + i}:", op] for i, op in enumerate(ops)]]]
        elif style < 0.8:
            body = []
            for i, op in enumerate(ops):
                body.append([f"{'el' if i else ''}if k == {lo + i}:", op])
        else:
            body = [[f"if k == {lo + i}:", op] for i, op in enumerate(ops)]
        self.code = lo + len(ops)
        self.kinds += [self.kind(op) for op in ops]
        after = [x for c, t in cs for x in self.dump(c, t)] if r.random() < 0.5 else []
        return [f"def {name}(self, k, a, b):", body + after]

    def program(self):
        r = self.r
        self.guard = self.cfg["guard"]
        self.lib.recs["R0"] = [("a", "i"), ("b", "i")]
        self.lib.recs["R1"] = [("p", (REC, "R0")), ("q", (ARR, "i", 2)), ("z", "i")]
        src = [["class R0(Record):", ["a: int", "b: int"]], ["class R1(Record):", ["p: R0", "q: Array[int, 2]", "z: int"]]]
        lv = []
        for _ in range(r.choice((0, 1, 1, 2))):
            t = self.container(400)
            lv.append((f"L.c{len(lv)}", t))
        if lv:
            src += ["@level_memory", ["class L:", [f"{c[2:]}: {ann(t)}" for c, t in lv]]]
        names = []
        for k in range(r.choice((1, 1, 2))):
            mem, sh, room, sroom = [], [], 60, 30
            fields = []
            for _ in range(r.choice((1, 2, 2))):
                t = self.container(room)
                if t:
                    room -= size(t, self.lib)
                    mem.append((f"self.m{len(mem)}", t))
                    fields.append(f"m{len(mem) - 1}: {ann(t)} = entity_memory()")
            if r.random() < 0.4:
                t = self.container(sroom)
                if t:
                    sh.append((f"self.s{len(sh)}", t))
                    fields.append(f"s{len(sh) - 1}: {ann(t)} = shared_memory()")
            if not mem and not sh and not lv:
                t = ("var", "i", 3)
                mem.append(("self.m0", t))
                fields.append(f"m0: {ann(t)} = entity_memory()")
            body = list(fields)
            parts = []
            if mem:
                body.append(self.dispatch("own", mem, r.choice((5, 9, 14))))
                parts.append("own")
            if sh or lv:
                body.append(self.dispatch("common", sh + lv, r.choice((5, 9, 14))))
                parts.append("common")
            for cb in ("touch", "update_sequential", "update_parallel"):
                run = [p for p in parts if (p == "own" or cb != "update_parallel") and r.random() < (0.8 if cb == "touch" else 0.4)]
                loop = [["for t in touches():", [["if t.delta.x == %d:" % ("touch", "update_sequential", "update_parallel").index(cb), [f"self.{p}(t.id, t.position.x, t.position.y)" for p in run]]]]] if run else []
                show = [x for c, t in mem + sh for x in self.dump(c, t)] if cb != "touch" else []
                if r.random() < 0.3:
                    loop, show = show, loop
                body.append([f"def {cb}(self):", show + loop])
            src.append([f"class A{k}(PlayArchetype):", body])
            names.append(f"A{k}")
        linked = r.random() < 0.35
        if linked:
            src += self.linked()
        src.append(["class Probe(PlayArchetype):", ["@callback(order=100)", ["def update_sequential(self):", [x for c, t in lv for x in self.dump(c, t)] + (["walk()"] if linked else [])]]])
        n = r.choice((1, 2, 2, 3))
        ents = ["Probe()"] + [f"{r.choice(names)}()" for _ in range(n)]
        if linked:
            names += ["Node", "Mgr"]
            ents.append("Mgr()")
            ents += [f"Node(w={r.randrange(-3, 6)})" for _ in range(r.choice((1, 2, 3, 5, 9)))]
        src += [f"ARCHETYPES = [Probe, {', '.join(names)}]", f"LEVEL = [{', '.join(ents)}]"]
        self.drop = []
        return src

    def linked(self):
        """Entities in a linked list that is grown, cut, changed and sorted."""
        r = self.r
        double = r.random() < 0.5
        lo = self.code
        prev = ["prev: EntityRef[Any] = shared_memory()"] if double else []
        kw = ", get_prev_ref=lambda e: e.prev" if double else ""
        vals = [r.choice(("lambda e: e.val", "lambda e: -e.val", "lambda e: e.val % 3", "lambda e: e.w", "lambda e: Pair(e.val % 2, e.w)")) for _ in range(2)]
        self.code = lo + 6
        self.kinds += ["grow", "other", "other", "other", "empty", "other"]
        return [
            "@level_memory", ["class H:", ["head: int"]],
            ["class Node(PlayArchetype):", [
                "w: int = imported()", "nxt: EntityRef[Any] = shared_memory()", *prev, "val: int = shared_memory()", "on: int = shared_memory()",
                ["def preprocess(self):", ["self.val = self.w"]],
                ["def touch(self):", [["for t in touches():", [
                    [f"if t.id == {lo} and t.position.x == self.index % 5 and not self.on:", ["self.nxt.index = H.head", *([["if H.head > 0:", ["Node.at(H.head).prev.index = self.index"]], "self.prev.index = 0"] if double else []), "H.head = self.index", "self.on = True"]],
                    [f"if t.id == {lo + 1} and t.position.x == self.index % 5:", ["self.val = t.position.y"]],
                ]]]],
            ]],
            ["class Mgr(PlayArchetype):", [["def touch(self):", [["for t in touches():", [
                [f"if t.id == {lo + 2}:", [f"H.head = sort_linked_entities(EntityRef[Node](H.head), get_value={vals[0]}, get_next_ref=lambda e: e.nxt{kw}).index"]],
                [f"if t.id == {lo + 3}:", [f"x = sort_linked_entities(EntityRef[Node](H.head), get_value={vals[1]}, get_next_ref=lambda e: e.nxt{kw})", "H.head = x.index"]],
                [f"if t.id == {lo + 4} and H.head > 0:", ["n = Node.at(H.head)", "n.on = False", "H.head = n.nxt.index", *([["if H.head > 0:", ["Node.at(H.head).prev.index = 0"]]] if double else []), "n.nxt.index = 0"]],
                [f"if t.id == {lo + 5}:", ["walk()"]],
            ]]]]]],
            ["def walk():", ["i = H.head", "debug_log(i)", ["while i > 0:", ["debug_log(i)", "debug_log(Node.at(i).val)", *(["debug_log(Node.at(i).prev.index)"] if double else []), "i = Node.at(i).nxt.index"]], "debug_log(-1)"]],
        ]

    def frames(self):
        r = self.r
        out = []
        t = 0.0
        burst = None
        by = {k: [c for c, x in enumerate(self.kinds) if x == k] or [0] for k in ("grow", "empty", "other")}
        n = r.choice((10, 30, 60, 90))
        phase, left = "grow", r.randrange(3, 12)
        for _ in range(n):
            t += 0.25
            ts = []
            for _ in range(r.choice((1, 2, 3, 5))):
                left -= 1
                if left < 0:
                    phase, left = r.choice((("grow", r.randrange(2, 10)), ("any", r.randrange(2, 12)), ("other", r.randrange(2, 20)), ("same", r.randrange(2, 6)), ("empty", 1)))
                    burst = r.randrange(max(self.code, 1))
                if phase == "same":
                    k = burst
                elif phase == "any":
                    k = r.randrange(max(self.code, 1))
                else:
                    k = r.choice(by[phase if r.random() < 0.75 else "other"])
                a, b = r.choice((0, 1, 2, 3, 4, -1, 5, r.randrange(-6, 20))), r.choice((0, 1, 2, 3, -1, -2, r.randrange(-5, 8)))
                row = [float(k), 0.0, 0.0, t, t, float(a), float(b)] + [0.0] * 8
                row[9] = float(r.choice((0, 0, 0, 1, 2)))
                ts.append(row)
            out.append({"time": t, "delta": 0.25, "touches": ts})
        return out


def ann_of(t, n):
    return ("var", t, n)
