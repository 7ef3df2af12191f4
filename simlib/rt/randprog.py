"""Random engines that use every random API, log what they asked for and what they got, and judges of those logs."""

from __future__ import annotations

from . import srcgen

TAG = 1_000_000.0


class RandGen:
    def __init__(self, rng, reach):
        self.r = rng
        self.reach = reach  # few small operations that run very often
        self.specs = []  # per operation: [kind, ...]
        self.n = 0
        self.groups = []  # the lines of every operation: a smaller program has all of them or none

    def tag(self, *spec):
        self.specs.append(list(spec))
        return f"debug_log({int(TAG) + len(self.specs) - 1})"

    def var(self):
        self.n += 1
        return f"v{self.n}"

    def bound(self, lo, hi):
        """An integer in [lo, hi], known to the compiler or not."""
        r = self.r
        k = r.random()
        if k < 0.45 or lo == hi:
            return str(r.randint(lo, hi))
        m = hi - lo + 1
        return r.choice((f"({lo} + self.k % {m})", f"({hi} - self.k % {m})", f"min({hi}, max({lo}, self.k))", f"clamp(self.k * 3 - 5, {lo}, {hi})"))

    def dist(self, lo, hi, n):
        return self.r.sample(range(lo, hi), n)

    # ---- operations: lists of lines ---------------------------------------------------------------------------

    def op(self, d=2):
        r = self.r
        kinds = ["randint"] * 3 + ["randrange"] * 5 + ["random"] * 2 + ["uniform"] * 2 + ["choice"] * 4 + ["shuffle"] * 4 + ["sum", "index", "helper", "expr"]
        if d > 0:
            kinds += ["if", "loop", "push"] * (1 if self.reach else 2)
        kind = r.choice(kinds)
        out = getattr(self, "op_" + kind)(d)
        whole = out if kind not in ("if", "loop", "push") else [x for x in out if isinstance(x, str)]
        if whole:
            self.groups.append([x.strip() for x in srcgen.render(whole)])
        return out

    def op_randint(self, d):
        r = self.r
        if self.reach:
            a = r.randrange(-3, 4)
            x, y = str(a), str(a + r.randrange(0, 5))
        else:
            x = self.bound(-6, 2)
            y = self.bound(2, 9) if r.random() < 0.8 else f"({x} + {r.randrange(4)})"
        a, b, v = self.var(), self.var(), self.var()
        return [f"{a} = {x}", f"{b} = {y}", f"{v} = random.randint({x if r.random() < 0.5 else a}, {b})", self.tag("randint"), f"debug_log({a})", f"debug_log({b})", f"debug_log({v})"]

    def op_randrange(self, d):
        r = self.r
        k = r.randrange(4)
        v = self.var()
        big = 6 if self.reach else 30
        if k == 0:
            n = self.bound(1, big)
            return [f"n = {n}", f"{v} = random.randrange(n)", self.tag("randrange"), "debug_log(0)", "debug_log(n)", "debug_log(1)", f"debug_log({v})"]
        if k == 1:
            a, b = self.bound(-5, 2), self.bound(3, 3 if self.reach else big)
            return [f"a = {a}", f"b = {b}", f"{v} = random.randrange(a, b)", self.tag("randrange"), "debug_log(a)", "debug_log(b)", "debug_log(1)", f"debug_log({v})"]
        s = r.choice((1, 2, 3, 5, 7))
        a, b = self.bound(-5, 2), self.bound(3, 8 if self.reach else big)
        if k == 3:
            a, b, s = b, a, -s
        st = str(s) if r.random() < 0.7 else f"({s} + 0 * self.k)"
        return [f"a = {a}", f"b = {b}", f"{v} = random.randrange(a, b, {st})", self.tag("randrange"), "debug_log(a)", "debug_log(b)", f"debug_log({s})", f"debug_log({v})"]

    def op_random(self, d):
        v = self.var()
        return [f"{v} = random.random()", self.tag("random"), f"debug_log({v})"]

    def op_uniform(self, d):
        r = self.r
        a, b = r.choice((-8, -2, 0, 0.5, 1, 3)), r.choice((-4, 0, 0.25, 1, 2, 100))
        x = str(a) if r.random() < 0.6 else f"({a} + self.k % 2)"
        v = self.var()
        return [f"a = {x}", f"{v} = random.uniform(a, {b})", self.tag("uniform"), "debug_log(a)", f"debug_log({b})", f"debug_log({v})"]

    def seq(self):
        """(preparation, text, element kind, length text, smallest length): a sequence with distinct elements where it is made here."""
        r = self.r
        k = r.random()
        n = r.choice((2, 3, 3, 4)) if self.reach else r.choice((2, 2, 3, 4, 5, 7))
        xs = self.dist(-9, 30, n)
        if k < 0.3:
            v = self.var()
            return [f"{v} = Array({', '.join(map(str, xs))})"], v, "n", n
        if k < 0.5:
            v = self.var()
            return [f"{v} = Array({', '.join(f'Item({x}, {self.r.randrange(40)})' for x in xs)})"], v, "r", n
        if k < 0.65:
            v = self.var()
            cap = n + r.randrange(3)
            return [f"{v} = VarArray[int, {cap}].new()", *(f"{v}.append({x})" for x in xs)], v, "n", n
        if k < 0.8:
            return [], "self.arr", "n", 5
        if k < 0.9:
            return [], "self.recs", "r", 3
        return [], "self.va", "n", None

    def dump(self, s, e):
        x = ["debug_log(x.a)", "debug_log(x.b)"] if e == "r" else ["debug_log(x)"]
        return [f"debug_log(len({s}))", [f"for x in {s}:", x]]

    def op_choice(self, d):
        r = self.r
        v = self.var()
        if r.random() < 0.25:
            s = r.choice((1, 2, 3, -1, -2))
            a, b = (self.bound(-4, 1), self.bound(2, 7 if self.reach else 20)) if s > 0 else (self.bound(2, 8), self.bound(-5, 1))
            return [f"a = {a}", f"b = {b}", f"{v} = random.choice(range(a, b, {s}))", self.tag("randrange"), "debug_log(a)", "debug_log(b)", f"debug_log({s})", f"debug_log({v})"]
        pre, s, e, n = self.seq()
        out = [f"{v} = random.choice({s})", self.tag("choice", e), *self.dump(s, e), *([f"debug_log({v}.a)", f"debug_log({v}.b)"] if e == "r" else [f"debug_log({v})"])]
        if e == "r" and r.random() < 0.4:
            # what was chosen is the element, not a copy of it
            out = [f"{v} = random.choice({s})", self.tag("touch", e), *self.dump(s, e), f"{v}.b += 100", *self.dump(s, e), f"{v}.b -= 100"]
        if n is None:
            out = [[f"if len({s}) > 1:", out]]
        return pre + out

    def op_shuffle(self, d):
        r = self.r
        pre, s, e, n = self.seq()
        call = f"random.shuffle({s})" if r.random() < 0.6 else f"{s}.shuffle()"
        out = [self.tag("shuffle", e), *self.dump(s, e), call, *self.dump(s, e)]
        if n is None and r.random() < 0.8:
            out = [[f"if len({s}) > 1:", out]]
        return pre + out

    def op_push(self, d):
        return [["if len(self.va) < 6:", [f"self.va.append({self.r.choice(('len(self.va) * 2', 'self.k + 50', '7'))})"]]]

    def op_sum(self, d):
        v = self.var()
        n, m = self.r.choice((2, 3, 4)), self.r.choice((1, 2, 5))
        x = self.r.choice((f"sum(random.randint(0, {m}) for _ in range({n}))", " + ".join([f"random.randint(0, {m})"] * n), f"sum(map(lambda i: random.randint(0, {m}), range({n})))"))
        return [f"{v} = {x}", self.tag("sum", n * m), f"debug_log({v})"]

    def op_index(self, d):
        n = self.r.choice((2, 3, 5))
        v = self.var()
        return [f"{v} = math.floor(random.random() * {n})" if self.r.random() < 0.5 else f"{v} = int(random.random() * {n})", self.tag("index", n), f"debug_log({v})"]

    def op_helper(self, d):
        r = self.r
        v = self.var()
        a, b = self.bound(-4, 0), self.bound(1, 4)
        return [f"a = {a}", f"b = {b}", f"{v} = pick(a, b)", self.tag("randint"), "debug_log(a)", "debug_log(b)", f"debug_log({v})"]

    def op_expr(self, d):
        v, w = self.var(), self.var()
        return [f"{v} = random.random()", f"{w} = random.random()", self.tag("two"), f"debug_log({v})", f"debug_log({w})", f"debug_log({v} + {w} * 2)"]

    def op_if(self, d):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            v = self.var()
            return [f"{v} = random.random()", self.tag("random"), f"debug_log({v})", [f"if {v} < 0.5:", self.op(d - 1)], ["else:", self.op(d - 1)]]
        if k == 1:
            v = self.var()
            return [f"{v} = random.randrange(3)", self.tag("randrange"), "debug_log(0)", "debug_log(3)", "debug_log(1)", f"debug_log({v})",
                    [f"match {v}:", [["case 0:", self.op(d - 1)], ["case 1:", self.op(d - 1)], ["case 2:", self.op(d - 1)], ["case _:", [self.tag("never")]]]]]
        return [[f"if self.k % 2 == 0 {r.choice(('and', 'or'))} random.random() < 0.5:", self.op(d - 1)]]

    def op_loop(self, d):
        r = self.r
        return [[r.choice((f"for q in range({r.choice((2, 3))}):", "for q in range(self.k % 3 + 1):")), self.op(d - 1)]]

    # ---- programs -----------------------------------------------------------------------------------------------

    def program(self):
        r = self.r
        src = [["class Item(Record):", ["a: int", "b: int"]], ["def pick(lo, hi):", r.choice((["return random.randint(lo, hi)"], ["return random.randrange(lo, hi + 1)"], [["if hi == lo:", ["return lo"]], "return lo + random.randrange(hi - lo + 1)"]))]]
        names = []
        for k in range(1 if self.reach else r.choice((1, 1, 2))):
            body = ["k: int = entity_memory()", "arr: Array[int, 5] = entity_memory()", "recs: Array[Item, 3] = entity_memory()", "va: VarArray[int, 6] = entity_memory()"]
            init = [*(f"self.arr[{i}] = {x}" for i, x in enumerate(self.dist(0, 40, 5))), *(f"self.recs[{i}] = Item({x}, {i})" for i, x in enumerate(self.dist(0, 40, 3))),
                    *(f"self.va.append({x})" for x in self.dist(60, 90, r.randrange(4)))]
            body.append(["def initialize(self):", init])
            for cb in ("update_sequential", "touch", "update_parallel"):
                if cb == "update_parallel" or not self.reach and r.random() < 0.6:
                    ops = [x for _ in range(r.choice((1, 1, 2)) if self.reach else r.choice((2, 3, 5))) for x in self.op()]
                    body.append([f"def {cb}(self):", ops + (["self.k += 1"] if r.random() < 0.9 or cb == "update_parallel" else [])])
            src.append([f"class A{k}(PlayArchetype):", body])
            names.append(f"A{k}")
        ents = [f"{r.choice(names)}()" for _ in range(1 if self.reach else r.choice((1, 2, 3)))]
        src += [f"ARCHETYPES = [{', '.join(names)}]", f"LEVEL = [{', '.join(ents)}]"]
        return src


def intact(text, groups):
    """Is every operation of the program there completely, or not at all?"""
    lines = "\n".join(x.strip() for x in text.splitlines())
    for g in groups:
        tags = [x for x in g if x.startswith(f"debug_log({int(TAG) // 10000}")]
        if any(t in lines for t in tags) and "\n".join(g) not in lines:
            return False
    return True


class Bad(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class Log:
    def __init__(self, calls):
        self.v = [c[1][0] for c in calls if c[0] == "DebugLog"]
        self.i = 0

    def next(self):
        if self.i >= len(self.v):
            raise Bad("cut", "the log ends inside an operation")
        self.i += 1
        return self.v[self.i - 1]

    def seq(self, e):
        n = self.next()
        if n != int(n) or n < 0 or n > 1000:
            raise Bad("length", f"a length of {n}")
        return [((self.next(), self.next()) if e == "r" else self.next()) for _ in range(int(n))]


def judge(calls, specs, seen):
    """Checks one callback's log; adds the outcomes seen per operation and arguments to `seen`: {key: (every outcome, {outcome: times})}."""
    log = Log(calls)

    def note(key, every, got):
        e = seen.setdefault(key, (every, {}))
        e[1][got] = e[1].get(got, 0) + 1

    while log.i < len(log.v):
        t = log.next()
        k = int(t - TAG)
        if t - TAG != k or not 0 <= k < len(specs):
            raise Bad("log", f"the log has {t} where an operation starts")
        kind, *a = specs[k]
        if kind in ("randint", "randrange"):
            lo, hi = log.next(), log.next()
            rng = range(int(lo), int(hi) + 1) if kind == "randint" else range(int(lo), int(hi), int(log.next()))
            v = log.next()
            if v != int(v) or int(v) not in rng:
                raise Bad("range", f"{kind} over {rng} gave {v}")
            note((k, str(rng)), rng, v)
        elif kind == "random":
            v = log.next()
            if not 0 <= v < 1:
                raise Bad("range", f"random() gave {v!r}")
        elif kind == "two":
            v, w, s = log.next(), log.next(), log.next()
            if not (0 <= v < 1 and 0 <= w < 1) or s != v + w * 2:
                raise Bad("range", f"two random numbers: {v!r}, {w!r}, combined {s!r}")
        elif kind == "uniform":
            lo, hi, v = log.next(), log.next(), log.next()
            if not min(lo, hi) <= v <= max(lo, hi):
                raise Bad("range", f"uniform({lo}, {hi}) gave {v!r}")
        elif kind == "sum":
            v = log.next()
            if v != int(v) or not 0 <= v <= a[0]:
                raise Bad("range", f"a sum of random integers from 0 to {a[0]} is {v}")
            note((k, "sum"), range(a[0] + 1), v)
        elif kind == "index":
            v = log.next()
            if v != int(v) or not 0 <= v < a[0]:
                raise Bad("range", f"random() scaled to an index of {a[0]} gave {v}")
            note((k, "index"), range(a[0]), v)
        elif kind == "choice":
            s = log.seq(a[0])
            v = (log.next(), log.next()) if a[0] == "r" else log.next()
            if v not in s:
                raise Bad("choice", f"choice from {s} gave {v}")
            if len(set(s)) == len(s):
                note((k, "choice", len(s)), range(len(s)), s.index(v))
        elif kind == "touch":
            s, after = log.seq("r"), log.seq("r")
            diff = [i for i, (x, y) in enumerate(zip(s, after)) if x != y]
            if len(s) != len(after) or len(diff) != 1 or after[diff[0]] != (s[diff[0]][0], s[diff[0]][1] + 100):
                raise Bad("choice", f"changing the element chosen from {s} gave {after}")
            note((k, "choice", len(s)), range(len(s)), diff[0])
        elif kind == "shuffle":
            s, after = log.seq(a[0]), log.seq(a[0])
            if sorted(s) != sorted(after):
                raise Bad("shuffle", f"shuffling {s} gave {after}")
            if len(set(s)) == len(s) and len(s) <= 4:
                note((k, "shuffle", len(s)), range((1, 1, 2, 6, 24)[len(s)]), perm([s.index(x) for x in after]))
        else:
            raise Bad("never", "an impossible branch was taken")


def perm(p):
    n, k = 0, len(p)
    for i in range(k):
        n = n * (k - i) + sum(1 for x in p[i + 1:] if x < p[i])
    return n


def missing(seen):
    """Outcomes that should have appeared long ago."""
    for key, (every, got) in seen.items():
        n = len(every)
        times = sum(got.values())
        if len(key) == 2 and key[1] == "sum":
            continue
        if n > 1 and times >= 40 * n:
            gone = [x for x in every if x not in got]
            if gone:
                return key, gone, times, dict(got)
    return None
