"""Executes packaged engine nodes: every memory access and host call goes through the simulated host."""

from __future__ import annotations

from . import arith
from .arith import BINARY, EASE, FOLD, NARY, UNARY


class Fault(Exception):
    """The callback did something the host does not provide (unknown block, out of range, not writable...)."""

    def __init__(self, kind, text):
        super().__init__(f"{kind}: {text}")
        self.kind = kind


class StepLimit(Exception):
    pass


class BreakEx(Exception):
    __slots__ = ("n", "value")

    def __init__(self, n, value):
        self.n, self.value = n, value


class Machine:
    """One engine thread.  `blocks`: id -> (list, base, size); `writable`: ids; `host(name, args)` -> float."""

    __slots__ = ("blocks", "writable", "host", "steps", "max_steps", "gate", "wrote", "readset", "taint", "tainted")

    def __init__(self, blocks, writable, host, max_steps=200_000):
        self.blocks, self.writable, self.host = blocks, writable, host
        self.steps, self.max_steps = 0, max_steps
        self.gate = None
        self.wrote = None
        self.readset = None

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit

    def read(self, b, i):
        e = self.blocks.get(b)
        if e is None:
            raise Fault("block", f"read of block {b}")
        arr, base, size = e
        if i != i or not 0 <= i < size or i != int(i):
            raise Fault("range", f"read of {b}[{i}] (size {size})")
        if self.gate is not None:
            self.gate("r", b, i)
        if self.readset is not None:
            self.readset.add((b, int(i)))
        return arr[base + int(i)]

    def write(self, b, i, v):
        e = self.blocks.get(b)
        if e is None:
            raise Fault("block", f"write of block {b}")
        if b not in self.writable:
            raise Fault("readonly", f"write of {b}[{i}], which this callback may not write")
        arr, base, size = e
        if i != i or not 0 <= i < size or i != int(i):
            raise Fault("range", f"write of {b}[{i}] (size {size})")
        if self.gate is not None:
            self.gate("w", b, i)
        if self.wrote is not None:
            self.wrote.add((b, int(i)))
        arr[base + int(i)] = v
        return v


def _rmw(op):
    base = op[3:] if op.startswith("Set") else None
    return base


RMW = {"SetAdd": FOLD["Add"], "SetSubtract": FOLD["Subtract"], "SetMultiply": FOLD["Multiply"], "SetDivide": FOLD["Divide"],
       "SetMod": FOLD["Mod"], "SetRem": FOLD["Rem"], "SetPower": FOLD["Power"]}

# pure host functions and host actions alike: evaluated arguments are handed to the host
HOST_OPS = {
    "DebugLog", "DebugPause", "Draw", "DrawCurvedB", "DrawCurvedBT", "DrawCurvedL", "DrawCurvedLR", "DrawCurvedR", "DrawCurvedT",
    "DestroyParticleEffect", "ExportValue", "MoveParticleEffect", "Paint", "Play", "PlayLooped", "PlayLoopedScheduled", "PlayScheduled",
    "Print", "Spawn", "SpawnParticleEffect", "StopLooped", "StopLoopedScheduled", "StreamSet", "StreamHas", "StreamGetValue",
    "StreamGetNextKey", "StreamGetPreviousKey", "AddLifeScheduled", "HasSkinSprite", "HasParticleEffect", "HasEffectClip",
    "BeatToBPM", "BeatToStartingBeat", "BeatToStartingTime", "BeatToTime", "TimeToScaledTime", "TimeToStartingScaledTime",
    "TimeToStartingTime", "TimeToTimeScale", "Random", "RandomInteger",
}


def _slot(kind, a):
    """Returns locate(m) -> (block, index) for the three addressing forms (arguments already closures)."""
    if kind == "":
        b, i = a

        def loc(m):
            return b(m), i(m)
    elif kind == "Pointed":
        b, i, o = a

        def loc(m):
            bb, ii, oo = b(m), i(m), o(m)
            db = m.read(bb, ii)
            return db, m.read(bb, ii + 1) + oo
    else:
        b, o, i, s = a

        def loc(m):
            bb, oo, ii, ss = b(m), o(m), i(m), s(m)
            return bb, oo + ii * ss
    return loc


def _args_then_loc(kind, a, v):
    """Like _slot, but the value argument is evaluated before any dereference."""
    if kind == "":
        b, i = a
        return lambda m: (b(m), i(m), v(m))
    if kind == "Pointed":
        b, i, o = a

        def loc(m):
            bb, ii, oo, vv = b(m), i(m), o(m), v(m)
            db = m.read(bb, ii)
            return db, m.read(bb, ii + 1) + oo, vv
        return loc
    b, o, i, s = a

    def loc(m):
        bb, oo, ii, ss, vv = b(m), o(m), i(m), s(m), v(m)
        return bb, oo + ii * ss, vv
    return loc


def build(func, a):
    """Closure for one function node; `a` are the closures of its arguments."""
    if func in UNARY:
        f, x = UNARY[func], a[0]
        return lambda m: f(x(m))
    if func in BINARY:
        f, x, y = BINARY[func], a[0], a[1]
        return lambda m: f(x(m), y(m))
    if func in FOLD:
        f = FOLD[func]
        if len(a) == 2:
            x, y = a
            return lambda m: f(x(m), y(m))

        def fold(m):
            if not a:
                return 0.0
            vs = [g(m) for g in a]
            acc = vs[0]
            for v in vs[1:]:
                acc = f(acc, v)
            return acc
        return fold
    if func in EASE:
        f, x = EASE[func], a[0]
        return lambda m: f(x(m))
    if func in NARY:
        f = NARY[func]
        return lambda m: f(*[g(m) for g in a])
    if func in HOST_OPS:
        def hostop(m):
            vs = [g(m) for g in a]
            if m.gate is not None:
                m.gate("h", func, 0)
            return m.host(func, vs)
        return hostop
    if func == "Execute":
        def execute(m):
            r = 0.0
            for g in a:
                r = g(m)
            return r
        return execute
    if func == "Execute0":
        def execute0(m):
            for g in a:
                g(m)
            return 0.0
        return execute0
    if func == "If":
        t, x, y = a
        return lambda m: x(m) if t(m) != 0 else y(m)
    if func in ("Switch", "SwitchWithDefault"):
        t, rest = a[0], a[1:]
        dflt = None
        if func == "SwitchWithDefault":
            *rest, dflt = rest
        pairs = list(zip(rest[::2], rest[1::2]))

        def switch(m):
            v = t(m)
            for c, br in pairs:
                if v == c(m):
                    return br(m)
            return dflt(m) if dflt is not None else 0.0
        return switch
    if func in ("SwitchInteger", "SwitchIntegerWithDefault"):
        t, rest = a[0], a[1:]
        dflt = None
        if func == "SwitchIntegerWithDefault":
            *rest, dflt = rest
        n = len(rest)

        def switchi(m):
            v = t(m)
            if 0 <= v < n and int(v) == v:
                return rest[int(v)](m)
            return dflt(m) if dflt is not None else 0.0
        return switchi
    if func == "While":
        t, b = a

        def while_(m):
            while t(m) != 0:
                m.tick()
                b(m)
            return 0.0
        return while_
    if func == "DoWhile":
        b, t = a

        def dowhile(m):
            while True:
                m.tick()
                b(m)
                if t(m) == 0:
                    return 0.0
        return dowhile
    if func == "And":
        def and_(m):
            r = 0.0
            for g in a:
                r = g(m)
                if r == 0:
                    break
            return r
        return and_
    if func == "Or":
        def or_(m):
            r = 0.0
            for g in a:
                r = g(m)
                if r != 0:
                    break
            return r
        return or_
    if func == "JumpLoop":
        n = len(a)

        def jumploop(m):
            i = 0
            while 0 <= i < n:
                m.tick()
                r = a[i](m)
                if i == n - 1:
                    return r
                i = int(r)
            return 0.0
        return jumploop
    if func == "Block":
        b = a[0]

        def block(m):
            try:
                return b(m)
            except BreakEx as e:
                if e.n > 1:
                    e.n -= 1
                    raise
                return e.value
        return block
    if func == "Break":
        n, v = a

        def brk(m):
            raise BreakEx(n(m), v(m))
        return brk
    if func == "Copy":
        def copy(m):
            sb, si, db, di, n = [g(m) for g in a]
            if n < 0:
                raise Fault("range", f"copy of {n} values")
            vs = [m.read(sb, si + k) for k in range(int(n))]
            for k, v in enumerate(vs):
                m.write(db, di + k, v)
            return 0.0
        return copy
    for kind in ("Pointed", "Shifted", ""):
        if kind and not func.endswith(kind):
            continue
        base = func[: len(func) - len(kind)] if kind else func
        if base == "Get":
            loc = _slot(kind, a)

            def get(m):
                b, i = loc(m)
                return m.read(b, i)
            return get
        if base == "Set":
            loc = _args_then_loc(kind, a[:-1], a[-1])

            def set_(m):
                return m.write(*loc(m))
            return set_
        if base in RMW:
            f = RMW[base]
            loc = _args_then_loc(kind, a[:-1], a[-1])

            def rmw(m):
                b, i, v = loc(m)
                return m.write(b, i, f(m.read(b, i), v))
            return rmw
        if base in ("IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"):
            loc = _slot(kind, a)
            d = 1.0 if base.startswith("Inc") else -1.0
            new = base.endswith("Post")

            def inc(m):
                b, i = loc(m)
                old = m.read(b, i)
                m.write(b, i, old + d)
                return old + d if new else old
            return inc
        break
    raise Fault("op", f"unknown engine function {func}")


def _const(v):
    return lambda m: v


def compile_nodes(nodes):
    """Closures for a packaged node list (arguments refer to earlier entries)."""
    out = []
    for k, n in enumerate(nodes):
        if "func" in n:
            for x in n["args"]:
                if not 0 <= x < k:
                    raise Fault("node", f"node {k} refers to node {x}")
            out.append(build(n["func"], [out[x] for x in n["args"]]))
        else:
            out.append(_const(float(n["value"])))
    return out


def compile_tree(node):
    """Closure for an EngineNode tree (optimizer output before packaging)."""
    memo = {}
    stack = [(node, False)]
    while stack:
        n, ready = stack.pop()
        if id(n) in memo:
            continue
        if not hasattr(n, "func"):
            memo[id(n)] = _const(float(n))
        elif ready:
            memo[id(n)] = build(n.func.value, [memo[id(x)] for x in n.args])
        else:
            stack.append((n, True))
            stack.extend((x, False) for x in n.args if id(x) not in memo)
    return memo[id(node)]


def run_node(fn, m):
    """Runs a callback's root node; a Break that leaves it ends the callback."""
    try:
        return fn(m)
    except BreakEx as e:
        return e.value


__all__ = ["Machine", "Fault", "StepLimit", "compile_nodes", "compile_tree", "run_node", "arith"]
