"""Random control flow graphs of the shape the frontend emits, over the real memory layout of each mode."""

from __future__ import annotations

import json

from . import env

CONSTS = [0, 1, 2, 3, 4, 5, 7, -1, -2, -3, 0.5, -0.5, 1.5, 2.5, -1.5, 0.25, 10, 100, 1e-3]
EXTREME = [1e9, -1e9, 2**31, 2**53, -(2**31), 1e300, 1e-300, 65535, 0.1]
UN = ["Abs", "Floor", "Ceil", "Round", "Trunc", "Negate", "Not", "Frac", "Sign", "Sin", "Cos", "Arctan", "Degree", "Radian", "EaseInQuad", "EaseOutInSine"]
BIN = ["Add", "Subtract", "Multiply", "Min", "Max", "Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr", "And", "Or"]
DIVS = ["Divide", "Mod", "Rem"]
NZ = [-8, -5, -3, -2, -1, 1, 2, 3, 4, 7, 0.5, -0.25]
# host calls usable as statements with their number of arguments
CALLS = {"play": [("DebugLog", 1), ("Draw", 11), ("Spawn", 3), ("Play", 2), ("PlayScheduled", 3), ("ExportValue", 2), ("StreamSet", 3), ("SpawnParticleEffect", 11), ("StopLooped", 1)],
         "watch": [("DebugLog", 1), ("Draw", 11), ("PlayScheduled", 3), ("MoveParticleEffect", 9)],
         "preview": [("DebugLog", 1), ("Draw", 11), ("Print", 15)],
         "tutorial": [("DebugLog", 1), ("Paint", 10), ("Play", 2)]}
PURE = {"play": [("HasSkinSprite", 1), ("BeatToTime", 1), ("TimeToScaledTime", 1)], "watch": [("StreamGetValue", 2), ("StreamGetNextKey", 2), ("StreamHas", 2), ("BeatToTime", 1)],
        "preview": [("HasSkinSprite", 1), ("BeatToTime", 1)], "tutorial": [("HasSkinSprite", 1)]}
VALCALLS = {"play": ["SpawnParticleEffect", "PlayLooped"], "watch": ["SpawnParticleEffect"], "preview": [], "tutorial": ["PlayLooped", "SpawnParticleEffect"]}


class Gen:
    def __init__(self, rng, mode, cb, big=False, scratch=False, n_ent=None):
        self.r, self.mode, self.cb, self.scratch = rng, mode, cb, scratch
        self.ns = rng.choice([2, 3, 5, 8, 14]) if big else rng.choice([2, 3, 4, 6])
        self.arrays = [rng.choice([2, 3, 4, 6, 9]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if scratch:
            self.ns = rng.choice([2, 4, 8, 16, 30])
            total = rng.choice([60, 300, 1500, 3400, 3900, 5000, 9000])
            self.arrays = []
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                self.arrays.append(max(1, min(total, rng.choice([1, 2, 3, 5, 8, 17, 40, total // 3, total // 2]))))
            if sum(self.arrays) > total and rng.random() < 0.7:
                self.arrays.sort()
                while sum(self.arrays) > total:
                    self.arrays.pop()
            rng.shuffle(self.arrays)
            self.arrays = self.arrays or [3]
        self.n_ent = n_ent or rng.choice([1, 2, 3, 5])
        self.ent = rng.randrange(self.n_ent)
        self.loops = 0
        self.depth_loops = 0
        self.clamp = rng.random() < 0.5
        self.extreme = rng.random() < 0.25
        self.budget = rng.choice([8, 16, 30, 60]) if not big else rng.choice([60, 120])
        b = env.BLOCKS[mode]
        ent = env.ENTITY[mode]
        self.has_entity = not (mode == "tutorial" or cb == "updateSpawn")
        rd, wr = [], []
        for name, (_, r_, w_) in b.items():
            if cb not in r_ or name == "TemporaryMemory" or name == "EngineRom":
                continue
            if name in ent and not self.has_entity:
                continue
            rd.append(name)
            if cb in w_:
                wr.append(name)
        # concentrate on a few blocks, so that accesses meet
        pairs = [p for p in ((n, a) for n, (_, a) in ent.items() if a) if self.has_entity]
        self.rd = rng.sample(rd, min(len(rd), rng.randint(1, 4)))
        self.wr = rng.sample(wr, min(len(wr), rng.randint(1, 3)))
        if pairs and rng.random() < 0.5:
            p = rng.choice(pairs)
            self.rd += [*p]
            self.wr += [x for x in p if x in wr]
        self.rd += self.wr
        # shapes that rewrites look for, more in some programs than in others
        self.motif = rng.choice((0.0, 0.15, 0.4))
        self.kinds = ("copies", "flag", "chain", "silent", "latch")
        self.pool = []
        if scratch and rng.random() < 0.5:
            # many scalars moving around in loops and branches
            self.kinds, self.motif = ("copies",) * 6 + self.kinds, 0.55
            self.ns, self.arrays = rng.choice([4, 6, 9]), self.arrays[:1]
        self.arr_of = {n: a for n, (_, a) in ent.items() if a}
        self.arr_names = {a: ent[n][0] for n, a in self.arr_of.items()}

    work = 40000

    def cost(self, n):
        """limits the time spent in long copy loops"""
        f = n * 8 ** self.depth_loops
        if f > self.work:
            return False
        self.work -= f
        return True

    # -------------------------------------------------------------- pieces
    def size(self, block):
        ent = env.ENTITY[self.mode]
        if block in ent:
            return ent[block][0]
        if block in self.arr_names:
            return self.arr_names[block] * self.n_ent
        return env.SIZES[block]

    def const(self):
        if self.extreme and self.r.random() < 0.2:
            return self.r.choice(EXTREME)
        return self.r.choice(CONSTS)

    def place(self, ok, names):
        r = self.r
        b = r.choice(names)
        n = self.size(b)
        hot = min(n, 3)
        if b in self.arr_names:
            st = self.arr_names[b]
            off = r.randrange(min(3, st))
            if r.random() < 0.35:
                return ["p", b, self.ent * st + off if r.random() < 0.6 else r.randrange(self.n_ent) * st + off]
            return ["pd", b, off, self.n_ent, st, self.expr(ok, 1)]
        x = r.random()
        if x < 0.6:
            return ["p", b, r.randrange(hot) if r.random() < 0.85 else r.randrange(n)]
        if x < 0.9 or not self.wr:
            k = max(1, min(n, r.choice([2, 3, 4])))
            st = r.choice([1, 1, 2]) if k * 2 <= n else 1
            return ["pd", b, 0, k, st, self.expr(ok, 1)]
        b2 = r.choice(names)
        return ["pp", [b, b2], self.expr(ok, 1), min(2, n, self.size(b2)), self.expr(ok, 0)]

    def leaf(self, ok):
        r = self.r
        c = []
        s = [k for k in ok if k[0] == "s"]
        a = [k for k in ok if k[0] == "a"]
        if s:
            c += ["t"] * 4
        el = [k for k in ok if k[0] == "e"]
        if a:
            c += ["ta"]
        if el:
            c += ["te"] * 2
        if self.rd:
            c += ["g"] * 2
        c += ["c"] * 2
        lv = [k for k in ok if k[0] == "l"]
        if lv:
            c += ["l"] * 2
        k = r.choice(c)
        if k == "l":
            return ["l", r.choice(sorted(lv))[1]]
        if k == "t":
            return ["t", r.choice(sorted(s))[1]]
        if k == "ta":
            j = r.choice(sorted(a))[1]
            return ["ta", j, r.randrange(self.arrays[j])]
        if k == "te":
            _, j, i = r.choice(sorted(el))
            return ["ta", j, i]
        if k == "g":
            b = r.choice(self.rd)
            return ["g", ["p", b, r.randrange(min(3, self.size(b)))]]
        return ["c", self.const()]

    def shaped(self, ok, d):
        """Repeated, nested and degenerate expressions."""
        r = self.r
        e = self.expr(ok, d - 1)
        k = r.randrange(12)
        if k == 0:
            return ["u", "Not", ["u", "Not", e]]
        if k == 1:
            return ["b", r.choice(("Add", "Subtract", "Multiply", "Min", "Max", "And", "Or", "Equal", "NotEqual", "Less", "LessOr", "GreaterOr")), e, e]
        if k == 2:
            return ["b", r.choice(("Add", "Subtract", "Multiply", "And", "Or", "Min", "Max", "Equal", "NotEqual", "Divide", "Mod")), e, ["c", r.choice((1, -1, 2))]]
        if k == 3:
            a = [["c", r.choice((0, 0, 1, -1, 2))], e]
            return ["b", r.choice(("Add", "Subtract", "Multiply", "And", "Or", "Min", "Max", "Less", "Equal", "NotEqual")), *(a if r.random() < 0.5 else a[::-1])]
        if k == 4:
            return ["u", r.choice(("Floor", "Round", "Trunc", "Ceil", "Abs", "Negate", "Frac", "Not")), ["u", r.choice(("Floor", "Round", "Trunc", "Ceil", "Abs", "Negate", "Not")), e]]
        if k == 5:
            o = r.choice(("Add", "Multiply", "Subtract", "Min", "Max", "And", "Or"))
            c = [["c", self.const()], ["c", self.const()]]
            return ["b", o, ["b", r.choice((o, o, "Add", "Multiply")), e, c[0]], c[1]]
        if k == 6:
            c = ["b", r.choice(("Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr")), e, self.leaf(ok)]
            return r.choice((["u", "Not", c], ["b", "Equal", c, ["c", r.choice((0, 1))]], ["b", "And", c, ["u", "Not", self.leaf(ok)]], ["b", "Or", c, c], ["if", c, r.choice((0, 1, 2)), r.choice((1, 0, 3))]))
        if k == 7:
            return ["b", r.choice(("Equal", "Less", "Greater")), ["b", "Subtract", e, self.leaf(ok)], ["c", 0]]
        if self.pool:
            need, old = r.choice(self.pool)
            if need <= ok:
                return old
        return e

    def expr(self, ok, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.leaf(ok)
        if self.motif and r.random() < self.motif:
            e = self.shaped(ok, d)
            if len(self.pool) < 12 and len(str(e)) < 300:
                self.pool.append((frozenset(ok), e))
            return e
        x = r.random()
        if x < 0.2:
            return ["u", r.choice(UN), self.expr(ok, d - 1)]
        if x < 0.62:
            return ["b", r.choice(BIN), self.expr(ok, d - 1), self.expr(ok, d - 1)]
        if x < 0.72:
            return ["b", r.choice(DIVS), self.expr(ok, d - 1), ["c", r.choice(NZ)]]
        if x < 0.78:
            return ["if", self.expr(ok, d - 1), self.const(), self.const()]
        if x < 0.83:
            ks = r.sample(range(-2, 5), r.randint(1, 4))
            return ["sw", self.expr(ok, d - 1), [[k, self.const()] for k in ks], self.const()]
        if x < 0.88:
            n, args = r.choice([("Clamp", 3), ("Lerp", 3), ("LerpClamped", 3), ("Judge", 8), ("JudgeSimple", 5)])
            return ["n", n, [self.expr(ok, d - 2) for _ in range(args)]]
        if x < 0.93 and PURE[self.mode]:
            n, args = r.choice(PURE[self.mode])
            return ["n", n, [self.expr(ok, d - 2) for _ in range(args)]]
        if self.rd:
            return ["g", self.place(ok, self.rd)]
        return self.leaf(ok)

    def val(self, ok, d):
        e = self.expr(ok, d)
        return ["n", "Clamp", [e, ["c", -1000], ["c", 1000]]] if self.clamp and self.r.random() < 0.8 else e

    def stmt(self, ok):
        """-> (statement, newly assigned)"""
        r = self.r
        self.budget -= 1
        x = r.random()
        d = r.choice([0, 1, 1, 2, 3])
        if x < 0.28:
            k = r.randrange(self.ns)
            e = self.val(ok, d)
            return ["st", k, e], [("s", k)]
        if x < 0.48 and self.wr:
            if r.random() < 0.45:
                return ["rmw", self.place(ok, self.wr), r.choice(["Add", "Subtract", "Multiply", "Add", "Divide", "Mod", "Rem"]),
                        ["c", r.choice([1, 1, *NZ])] if r.random() < 0.6 else self.val(ok, 1), r.random() < 0.3], []
            return ["set", self.place(ok, self.wr), self.val(ok, d)], []
        if x < 0.56:
            s = sorted(k for k in ok if k[0] == "s")
            if s:
                return ["rmwt", r.choice(s)[1], r.choice(["Add", "Subtract", "Multiply"]), ["c", r.choice([1, 1, 2, -1, 0.5])] if r.random() < 0.6 else self.val(ok, 1)], []
        if x < (0.68 if not self.scratch else 0.8) and self.arrays:
            j = r.randrange(len(self.arrays))
            if self.scratch and ("a", j) not in ok and r.random() < 0.5 or r.random() < 0.05:
                n = self.arrays[j]
                ks = r.sample(range(n), min(n, r.choice([1, 2, 3])))
                return ["apart", j, [[i, self.val(ok, 1)] for i in ks]], [("e", j, i) for i in ks]
            full = [i for i in range(len(self.arrays)) if ("a", i) in ok and i != j and self.arrays[i] >= self.arrays[j]]
            if full and r.random() < 0.3 and self.cost(self.arrays[j]):
                k = self.loops
                self.loops += 1
                return ["acopy", j, r.choice(full), k], [("a", j)]
            if ("a", j) not in ok and self.arrays[j] > 12 or self.scratch and r.random() < 0.1 and self.cost(self.arrays[j]):
                self.cost(self.arrays[j])
                k = self.loops
                self.loops += 1
                return ["afill", j, self.val(ok | {("l", k)}, 1) if r.random() < 0.5 else ["b", "Add", ["l", k], self.leaf(ok)], k], [("a", j)]
            if ("a", j) not in ok:
                return ["ainit", j, [self.val(ok, 1) if r.random() < 0.3 else ["c", self.const()] for _ in range(self.arrays[j])]], [("a", j)]
            if r.random() < 0.35:
                return ["sta", j, r.randrange(self.arrays[j]), self.val(ok, d)], []
            if r.random() < 0.5:
                return ["stad", j, self.expr(ok, 1), self.val(ok, d), r.random() < 0.4], []
            k = r.randrange(self.ns)
            return ["lad", k, j, self.expr(ok, 1)], [("s", k)]
        if x < 0.74:
            k = r.randrange(self.ns)
            if r.random() < 0.5:
                return ["rnd", k, ["c", r.choice([0, -1, 0.5])], ["c", r.choice([1, 2, 0.5])], r.random() < 0.5], [("s", k)]
            return ["rndi", k, ["c", r.choice([0, -2])], ["c", r.choice([1, 3, 7])], r.random() < 0.5], [("s", k)]
        if x < 0.80 and VALCALLS[self.mode]:
            k = r.randrange(self.ns)
            n = r.choice(VALCALLS[self.mode])
            return ["vcall", k, n, [self.leaf(ok) for _ in range(11 if n[0] == "S" else 1)]], [("s", k)]
        if x < 0.93:
            n, a = r.choice(CALLS[self.mode])
            return ["call", n, [self.expr(ok, 1 if i else d) if r.random() < 0.3 or i == 0 else ["c", self.const()] for i in range(a)]], []
        k = r.randrange(self.ns)
        return ["st", k, ["g", self.place(ok, self.rd)] if self.rd else ["c", 1]], [("s", k)]

    def block(self, ok, n):
        out = []
        ok = set(ok)
        for _ in range(n):
            s, new = self.stmt(frozenset(ok))
            out.append(s)
            ok.update(new)
        return ["blk", out], frozenset(ok)

    def motifs(self, ok, d):
        """Statement patterns: copies and swaps, loop-carried flags, tests of one value after another, arms that only have an effect."""
        r = self.r
        self.budget -= 3
        k = r.choice(self.kinds)
        if k == "copies":
            s = sorted(x for x in ok if x[0] == "s")
            if len(s) < 2:
                return self.block(ok, 3)
            use = r.sample(s, min(len(s), r.choice((2, 3, 4))))
            out = []
            have = set(ok)
            for _ in range(r.choice((2, 3, 3, 5, 8))):
                src = r.choice(use)[1]
                dst = r.choice(use)[1] if r.random() < 0.75 else r.randrange(self.ns)
                out.append(["st", dst, ["t", src] if r.random() < 0.85 else ["b", "Add", ["t", src], ["c", 1]]])
                have.add(("s", dst))
            body = ["blk", out]
            if r.random() < 0.4:
                b, _ = self.node(ok, d - 2)
                body = ["seq", [body, b] if r.random() < 0.5 else [b, body]]
            if r.random() < 0.5 and self.depth_loops < 3:
                lk = self.loops
                self.loops += 1
                return ["loop", lk, r.randint(1, 5), body, None, r.choice(["head", "tail"])], frozenset(ok)
            if r.random() < 0.5:
                b, _ = self.node(ok, d - 2)
                return ["br", self.expr(ok, 1), body, b], frozenset(ok)
            return body, frozenset(have)
        v = r.randrange(self.ns)
        after = frozenset(ok | {("s", v)})
        if k == "flag":
            # a scalar that starts as a truth value and may not stay one
            pre = ["blk", [["st", v, ["c", r.choice((0, 1))]]]]
            lk = self.loops
            self.loops += 1
            self.depth_loops += 1
            ok2 = after | {("l", lk)}
            b, _ = self.node(ok2, d - 2)
            use, _ = self.stmt(ok2)
            upd = ["st", v, r.choice((["b", r.choice(("Add", "Subtract", "Multiply", "Max", "And", "Or")), ["t", v], self.leaf(ok2)], self.expr(ok2, 2), ["c", self.const()]))]
            if r.random() < 0.6:
                upd = ["br", self.expr(ok2, 1), ["blk", [upd]], ["blk", []]]
            else:
                upd = ["blk", [upd]]
            self.depth_loops -= 1
            look = [["u", "Not", ["u", "Not", ["t", v]]], ["b", "And", ["t", v], ["t", v]], ["b", "Or", ["t", v], ["c", 0]], ["b", "And", ["c", 1], ["t", v]], ["if", ["t", v], 1, 0], ["t", v]]
            see = [["call", "DebugLog", [r.choice(look)]], *([use] if r.random() < 0.5 else [])]
            inner = [["blk", see], upd] if r.random() < 0.5 else [upd, ["blk", see]]
            if r.random() < 0.4:
                inner.insert(r.randrange(3), b)
            return ["seq", [pre, ["loop", lk, r.randint(1, 5), ["seq", inner], None, r.choice(["head", "tail"])], ["blk", [["call", "DebugLog", [r.choice(look)]]]]]], after
        if k == "latch":
            # the value tells later which way was taken
            vals = r.sample((0, 1, 2, 3, 0.5, -1), 3)
            bs = [self.node(ok, d - 2)[0] for _ in range(3)]
            tag = [["seq", [b, ["blk", [["st", v, ["c", x]]]]]] for b, x in zip(bs, vals)]
            n = ["br", self.expr(ok, 1), tag[0], tag[1]] if r.random() < 0.5 else ["switch", self.expr(ok, 1), 3, [[0, tag[0]], [1, tag[1]]], tag[2]]
            arms = [[c, self.node(after, d - 2)[0]] for c in r.sample(vals, r.choice((1, 2, 3)))]
            m = r.choice((0, 1, 2))
            if m == 0:
                look = ["switch", ["t", v], None, arms, self.node(after, d - 2)[0] if r.random() < 0.6 else None]
            elif m == 1:
                look = ["br", ["b", r.choice(("Equal", "Less", "GreaterOr")), ["t", v], ["c", vals[0]]], arms[0][1], ["blk", []]]
            else:
                look = ["blk", [["call", "DebugLog", [["b", r.choice(("Add", "Multiply", "And", "Or", "Equal")), ["t", v], ["c", r.choice(vals)]]]]]]
            return ["seq", [n, look]], after
        # one value tested against constants, one test after another
        pre = ["blk", [["st", v, self.expr(ok, 1) if r.random() < 0.6 else ["b", "Mod", ["u", "Floor", self.expr(ok, 1)], ["c", 4]]]]]
        cs = r.sample((0, 1, 2, 3, -1, 0.5, 5), r.choice((2, 3, 3, 4)))
        if r.random() < 0.15:
            cs.append(cs[0])
        cur = self.node(after, d - 2)[0] if r.random() < 0.7 else ["blk", []]
        for c in reversed(cs):
            arm = self.node(after, d - 2)[0]
            if k == "silent" and r.random() < 0.7:
                arm = ["blk", [self.silent(after) for _ in range(r.choice((0, 1, 1, 2)))]]
            t = ["b", "Equal", ["t", v], ["c", c]] if r.random() < 0.6 else ["b", "Equal", ["c", c], ["t", v]]
            cur = ["br", t, arm, cur] if r.random() < 0.8 else ["br", ["b", "NotEqual", ["t", v], ["c", c]], cur, arm]
            if r.random() < (0.35 if k == "silent" else 0.1):
                cur = ["seq", [["blk", [self.silent(after)]], cur]]
        return ["seq", [pre, cur]], after

    def silent(self, ok):
        """A statement whose value nothing reads."""
        r = self.r
        v = r.randrange(self.ns)
        if VALCALLS[self.mode] and r.random() < 0.6:
            n = r.choice(VALCALLS[self.mode])
            return ["vdrop", n, [self.leaf(ok) for _ in range(11 if n[0] == "S" else 1)]]
        if r.random() < 0.5 and ("s", v) in ok:
            return ["st", v, ["t", v]]
        n, a = r.choice(CALLS[self.mode])
        return ["call", n, [self.leaf(ok) for _ in range(a)]]

    def node(self, ok, d):
        r = self.r
        if d <= 0 or self.budget <= 0:
            return self.block(ok, r.randint(0, 4))
        if self.motif and r.random() < self.motif:
            return self.motifs(ok, d)
        x = r.random()
        if x < 0.22:
            return self.block(ok, r.randint(1, 6))
        if x < 0.45:
            ns = []
            for _ in range(r.randint(2, 4)):
                n, ok = self.node(ok, d - 1)
                ns.append(n)
            return ["seq", ns], ok
        if x < 0.66:
            a, oa = self.node(ok, d - 1)
            b, ob = self.node(ok, d - 1)
            t = self.expr(ok, r.choice([0, 1, 2]))
            if a[0] == "ret":
                oa = ob
            if b[0] == "ret":
                ob = oa
            return ["br", t, a, b], oa & ob
        if x < 0.8:
            conds = list(range(r.randint(2, 4))) if r.random() < 0.5 else sorted(r.sample([-3, -1, 0, 1, 2, 3, 5, 0.5, 10], r.randint(1, 4)))
            t = self.expr(ok, 1)
            bodies, oks = [], []
            for _ in conds:
                b, o = self.node(ok, d - 1)
                bodies.append(b)
                oks.append(o)
            dflt = None
            if r.random() < 0.7:
                dflt, o = self.node(ok, d - 1)
                oks.append(o)
            m = r.choice([None, 2, 4])
            res = oks[0]
            for o in oks[1:]:
                res &= o
            return ["switch", t, m, [[c, b] for c, b in zip(conds, bodies)], dflt], res
        if x < 0.95 and self.depth_loops < 3:
            self.depth_loops += 1
            k = self.loops
            self.loops += 1
            b, _ = self.node(ok | {("l", k)}, d - 1)
            self.depth_loops -= 1
            brk = self.expr(ok, 1) if r.random() < 0.3 else None
            return ["loop", k, r.randint(1, 6), b, brk, r.choice(["head", "head", "tail"])], ok
        if x < 0.97:
            return ["ret", self.expr(ok, 1)], ok
        return self.block(ok, r.randint(1, 4))

    def program(self):
        ok = frozenset()
        pre, ok = self.block(ok, self.r.randint(1, 4))
        body, ok = self.node(ok, self.r.choice([1, 2, 3, 4]))
        post, ok = self.block(ok, self.r.randint(1, 4))
        ret = self.expr(ok, 1) if self.r.random() < 0.6 else None
        return {"mode": self.mode, "cb": self.cb, "ns": self.ns, "arrays": self.arrays, "loops": self.loops, "n_ent": self.n_ent,
                "ent": self.ent if self.has_entity else None, "body": ["seq", [pre, body, post]], "ret": ret, "blocks": sorted(set(self.rd + self.wr))}


def shuffle(rng, mode, cb, n_ent):
    """Scalars copied, swapped and rotated through nested loops and branches, all read at the end."""
    r = rng
    g = Gen(rng, mode, cb, n_ent=n_ent)
    n = r.choice((3, 4, 5, 6, 8))
    own = [b for b in g.rd if b in env.SIZES and env.SIZES[b] >= 16] or g.rd
    loops = [0]
    left = [r.choice((8, 14, 24))]

    def host():
        b = r.choice(own)
        return ["g", ["p", b, r.randrange(min(6, g.size(b)))]]

    def copies():
        k = r.random()
        vs = r.sample(range(n), min(n, r.choice((2, 3, 4))))
        if k < 0.35:  # rotation through a spare
            seq = [*vs, vs[0]] if r.random() < 0.5 else vs
            out = [["st", n, ["t", seq[0]]], *(["st", a, ["t", b]] for a, b in zip(seq, seq[1:])), ["st", vs[-1], ["t", n]]]
            return out
        if k < 0.75:
            return [["st", r.randrange(n), ["t", r.randrange(n)]] for _ in range(r.choice((1, 2, 3, 4)))]
        if k < 0.9:
            return [["st", r.randrange(n), ["b", r.choice(("Add", "Subtract", "Min")), ["t", r.randrange(n)], r.choice((["c", 1], ["t", r.randrange(n)]))]]]
        return [["st", r.randrange(n), host()]]

    def node(d, inloop):
        left[0] -= 1
        k = r.random()
        if d <= 0 or left[0] <= 0 or k < 0.25:
            return ["blk", copies()]
        if k < 0.5:
            return ["seq", [node(d - 1, inloop) for _ in range(r.choice((2, 3)))]]
        if k < 0.75:
            t = r.choice((host(), ["b", "Less", ["t", r.randrange(n)], ["t", r.randrange(n)]]))
            return ["br", t, node(d - 1, inloop), node(d - 1, inloop) if r.random() < 0.6 else ["blk", []]]
        if k < 0.8:
            return ["switch", host(), 3, [[0, node(d - 1, inloop)], [1, node(d - 1, inloop)]], node(d - 1, inloop)]
        if inloop >= 2:
            return ["blk", copies()]
        lk = loops[0]
        loops[0] += 1
        brk = ["b", "Less", ["t", r.randrange(n)], ["t", r.randrange(n)]] if r.random() < 0.3 else None
        return ["loop", lk, r.randint(1, 4), node(d - 1, inloop + 1), brk, r.choice(["head", "tail"])]

    body = ["seq", [["blk", [["st", k, host() if r.random() < 0.7 else ["c", k]] for k in range(n)]], *(node(r.choice((2, 3, 4)), 0) for _ in range(r.choice((1, 2, 3)))),
                    ["blk", [["call", "DebugLog", [["t", k]]] for k in range(n) if r.random() < 0.8]]]]
    return {"mode": mode, "cb": cb, "ns": n + 1, "arrays": [], "loops": loops[0], "n_ent": g.n_ent, "ent": g.ent if g.has_entity else None, "body": body, "ret": None, "blocks": sorted(set(g.rd + g.wr))}


def lower(prog):
    """Builds a fresh BasicBlock graph of the project's own classes."""
    from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
    from sonolus.backend.ops import Op
    from sonolus.backend.optimize.flow import BasicBlock
    from sonolus.backend.place import BlockPlace, TempBlock

    B = {k: v[0] for k, v in env.BLOCKS[prog["mode"]].items()}
    T = [TempBlock(f"v{k}", 1) for k in range(prog["ns"])]
    A = [TempBlock(f"arr{k}", n) for k, n in enumerate(prog["arrays"])]
    L = [TempBlock(f"i{k}", 1) for k in range(prog["loops"])]
    ACC = BlockPlace(TempBlock("acc", 1), 0)
    draws = '"rnd' in json.dumps(prog["body"])
    fresh = [0]

    class Cur:
        b = BasicBlock()

    entry = Cur.b

    def P(op, *a):
        return IRPureInstr(Op(op), list(a))

    def tmp():
        fresh[0] += 1
        return BlockPlace(TempBlock(f"x{fresh[0]}", 1), 0)

    def wrapi(e, n):
        """an in-range index in a fresh temp, as the frontend computes indexes"""
        t = tmp()
        Cur.b.statements.append(IRSet(t, P("Mod", P("Floor", P("Abs", ex(e))), IRConst(n))))
        return t

    def place(p):
        if p[0] == "p":
            return BlockPlace(B[p[1]], p[2], 0)
        if p[0] == "pd":
            _, b, off, n, st, e = p
            t = wrapi(e, n)
            if st == 1:
                return BlockPlace(B[b], t, off)
            t2 = tmp()
            Cur.b.statements.append(IRSet(t2, P("Multiply", IRGet(t), IRConst(st))))
            return BlockPlace(B[b], t2, off)
        _, bs, sel, n, e = p
        t = wrapi(e, n)
        pt = tmp()
        sv = ex(sel)
        Cur.b.statements.append(IRSet(pt, P("If", sv, IRConst(B[bs[0]]), IRConst(B[bs[1]]))))
        return BlockPlace(pt, t, 0)

    def ex(e):
        k = e[0]
        if k == "c":
            return IRConst(e[1])
        if k == "t":
            return IRGet(BlockPlace(T[e[1]], 0))
        if k == "l":
            return IRGet(BlockPlace(L[e[1]], 0))
        if k == "ta":
            return IRGet(BlockPlace(A[e[1]], e[2]))
        if k == "g":
            return IRGet(place(e[1]))
        if k == "u":
            return P(e[1], ex(e[2]))
        if k == "b":
            return P(e[1], ex(e[2]), ex(e[3]))
        if k == "n":
            return P(e[1], *[ex(a) for a in e[2]])
        if k == "if":
            return P("If", ex(e[1]), IRConst(e[2]), IRConst(e[3]))
        return P("SwitchWithDefault", ex(e[1]), *[IRConst(x) for kv in e[2] for x in kv], IRConst(e[3]))

    def put(s):
        Cur.b.statements.append(s)

    def via(e, hop):
        """a value either nested in the statement or through a temporary of its own"""
        v = ex(e)
        if not hop:
            return v
        t = tmp()
        put(IRSet(t, v))
        return IRGet(t)

    def stmt(s):
        k = s[0]
        if k == "st":
            v = ex(s[2])
            put(IRSet(BlockPlace(T[s[1]], 0), v))
        elif k == "set":
            pl = place(s[1])
            v = ex(s[2])
            put(IRSet(pl, v))
        elif k == "rmw":
            pl = place(s[1])
            v = ex(s[3])
            if s[4]:
                t = tmp()
                put(IRSet(t, IRGet(pl)))
                put(IRSet(pl, P(s[2], IRGet(t), v)))
            else:
                put(IRSet(pl, P(s[2], IRGet(pl), v)))
        elif k == "rmwt":
            pl = BlockPlace(T[s[1]], 0)
            v = ex(s[3])
            put(IRSet(pl, P(s[2], IRGet(pl), v)))
        elif k == "ainit":
            for i, e in enumerate(s[2]):
                v = ex(e)
                put(IRSet(BlockPlace(A[s[1]], i), v))
        elif k == "apart":
            for i, e in s[2]:
                v = ex(e)
                put(IRSet(BlockPlace(A[s[1]], i), v))
        elif k in ("afill", "acopy"):
            pl = BlockPlace(L[s[3]], 0)
            put(IRSet(pl, IRConst(0)))
            head, body, out = new(), new(), new()
            Cur.b.connect_to(head, None)
            head.test = P("Less", IRGet(pl), IRConst(prog["arrays"][s[1]]))
            head.connect_to(body, None)
            head.connect_to(out, 0)
            Cur.b = body
            v = ex(s[2]) if k == "afill" else IRGet(BlockPlace(A[s[2]], pl))
            put(IRSet(BlockPlace(A[s[1]], pl), v))
            put(IRSet(pl, P("Add", IRGet(pl), IRConst(1))))
            Cur.b.connect_to(head, None)
            Cur.b = out
        elif k == "sta":
            v = ex(s[3])
            put(IRSet(BlockPlace(A[s[1]], s[2]), v))
        elif k == "stad":
            t = wrapi(s[2], prog["arrays"][s[1]])
            v = via(s[3], s[4])
            put(IRSet(BlockPlace(A[s[1]], t), v))
        elif k == "lad":
            t = wrapi(s[3], prog["arrays"][s[2]])
            put(IRSet(BlockPlace(T[s[1]], 0), IRGet(BlockPlace(A[s[2]], t))))
        elif k in ("rnd", "rndi"):
            put(IRSet(BlockPlace(T[s[1]], 0), IRInstr(Op.Random if k == "rnd" else Op.RandomInteger, [ex(s[2]), ex(s[3])])))
            # a draw whose value is never used may be dropped, so every draw is used
            if s[4]:
                put(IRInstr(Op.DebugLog, [IRGet(BlockPlace(T[s[1]], 0))]))
            else:
                put(IRSet(ACC, P("Add", P("Multiply", IRGet(ACC), IRConst(0.5)), IRGet(BlockPlace(T[s[1]], 0)))))
        elif k == "vcall":
            a = [ex(x) for x in s[3]]
            put(IRSet(BlockPlace(T[s[1]], 0), IRInstr(Op(s[2]), a)))
        elif k == "vdrop":
            # kept in a temporary that is never read
            a = [ex(x) for x in s[2]]
            put(IRSet(tmp(), IRInstr(Op(s[1]), a)))
        elif k == "call":
            a = [ex(x) for x in s[2]]
            put(IRInstr(Op(s[1]), a))

    def new():
        return BasicBlock()

    def node(n):
        k = n[0]
        if k == "blk":
            for s in n[1]:
                stmt(s)
        elif k == "seq":
            for c in n[1]:
                node(c)
        elif k == "br":
            Cur.b.test = ex(n[1])
            start, join = Cur.b, new()
            x, y = new(), new()
            start.connect_to(x, None)
            start.connect_to(y, 0)
            Cur.b = x
            node(n[2])
            Cur.b.connect_to(join, None)
            Cur.b = y
            node(n[3])
            Cur.b.connect_to(join, None)
            Cur.b = join
        elif k == "switch":
            t = ex(n[1])
            if n[2]:
                t = P("Mod", P("Floor", P("Abs", t)), IRConst(n[2]))
            Cur.b.test = t
            start, join = Cur.b, new()
            for c, b in n[3]:
                x = new()
                start.connect_to(x, c)
                Cur.b = x
                node(b)
                Cur.b.connect_to(join, None)
            if n[4] is not None:
                x = new()
                start.connect_to(x, None)
                Cur.b = x
                node(n[4])
                Cur.b.connect_to(join, None)
            else:
                start.connect_to(join, None)
            Cur.b = join
        elif k == "loop":
            _, lk, bound, body, brk, form = n
            pl = BlockPlace(L[lk], 0)
            put(IRSet(pl, IRConst(0)))
            head, exit_ = new(), new()
            Cur.b.connect_to(head, None)
            if form == "head":
                head.test = P("Less", IRGet(pl), IRConst(bound))
                bodyb = new()
                head.connect_to(bodyb, None)
                head.connect_to(exit_, 0)
                Cur.b = bodyb
            else:
                Cur.b = head
            node(body)
            if brk is not None:
                Cur.b.test = ex(brk)
                cont = new()
                Cur.b.connect_to(cont, 0)
                Cur.b.connect_to(exit_, None)
                Cur.b = cont
            put(IRSet(pl, P("Add", IRGet(pl), IRConst(1))))
            if form == "head":
                Cur.b.connect_to(head, None)
            else:
                Cur.b.test = P("Less", IRGet(pl), IRConst(bound))
                Cur.b.connect_to(head, None)
                Cur.b.connect_to(exit_, 0)
            Cur.b = exit_
        elif k == "ret":
            v = ex(n[1])
            if draws:
                put(IRInstr(Op.DebugLog, [IRGet(ACC)]))
            put(IRInstr(Op.Break, [IRConst(1), v]))
            Cur.b = new()

    if draws:
        put(IRSet(ACC, IRConst(0)))
    node(prog["body"])
    if draws:
        put(IRInstr(Op.DebugLog, [IRGet(ACC)]))
    if prog["ret"] is not None:
        v = ex(prog["ret"])
        put(IRInstr(Op.Break, [IRConst(1), v]))
    return entry


def subterms(n):
    """Simpler replacements for a control node (minimisation)."""
    k = n[0]
    if k == "blk":
        for i in range(len(n[1])):
            yield ["blk", n[1][:i] + n[1][i + 1:]]
    elif k == "seq":
        for i in range(len(n[1])):
            yield ["seq", n[1][:i] + n[1][i + 1:]]
        for i, c in enumerate(n[1]):
            for s in subterms(c):
                yield ["seq", n[1][:i] + [s] + n[1][i + 1:]]
    elif k == "br":
        yield n[2]
        yield n[3]
        for s in subterms(n[2]):
            yield ["br", n[1], s, n[3]]
        for s in subterms(n[3]):
            yield ["br", n[1], n[2], s]
    elif k == "switch":
        for c, b in n[3]:
            yield b
        if n[4]:
            yield n[4]
        for i, (c, b) in enumerate(n[3]):
            if len(n[3]) > 1:
                yield [*n[:3], n[3][:i] + n[3][i + 1:], n[4]]
            for s in subterms(b):
                yield [*n[:3], n[3][:i] + [[c, s]] + n[3][i + 1:], n[4]]
        if n[4]:
            for s in subterms(n[4]):
                yield [*n[:4], s]
    elif k == "loop":
        yield n[3]
        if n[4] is not None:
            yield [*n[:4], None, n[5]]
        for s in subterms(n[3]):
            yield [*n[:3], s, *n[4:]]
    elif k == "ret":
        yield ["blk", []]
