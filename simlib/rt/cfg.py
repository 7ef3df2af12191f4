"""Reference interpreter for control flow graphs as the frontend emits them (before any optimisation)."""

from __future__ import annotations

from .arith import FOLD
from .machine import BreakEx, Fault, Machine, _const, build


class RefMachine(Machine):
    __slots__ = ("temps", "uninit", "unspec", "near")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.temps, self.uninit, self.unspec, self.near = [], 0, 0, 0


UNSET = None


def _divide(a):
    """The engine's quotient, noting a zero divisor: its sign is not a value the engine distinguishes."""
    f = build("Divide", a)
    if len(a) != 2:
        return f
    x, y = a
    op = FOLD["Divide"]

    def div(m):
        p, q = x(m), y(m)
        if q == 0:
            m.unspec += 1
        return op(p, q)
    return div


def _multiply(a):
    """The engine's product, noting 0 * (NaN or infinity), which the compiler documents it may take for 0."""
    f = build("Multiply", a)
    if len(a) != 2:
        return f
    x, y = a

    def mul(m):
        p, q = x(m), y(m)
        r = p * q
        if r != r and (p == 0 or q == 0):
            m.unspec += 1
        return r
    return mul


def _equal(name, a):
    """A comparison with a constant, noting values next to the constant (known finding: tests of one value after another become one many-way branch)."""
    f = build(name, a)
    if len(a) != 2:
        return f
    x, y = a
    hit, miss = (1.0, 0.0) if name == "Equal" else (0.0, 1.0)

    def eq(m):
        p, q = x(m), y(m)
        if p == q:
            return hit
        if abs(p - q) < 1e-9:
            m.near += 1
        return miss
    return eq


class Snapshot:
    """A private copy of a CFG, compiled to closures; the project's own objects are not kept."""

    def __init__(self, entry):
        self.slots, self.sizes, self.total = {}, {}, 0
        order, idx, stack = [], {}, [entry]
        while stack:
            b = stack.pop()
            if b in idx:
                continue
            idx[b] = len(order)
            order.append(b)
            stack.extend(e.dst for e in b.outgoing)
        self.blocks = []
        self.ops = set()
        for b in order:
            if b.phis:
                raise Fault("phi", "the frontend emitted a phi")
            stmts = [self.stmt(s) for s in b.statements]
            test = self.expr(b.test)
            edges, default = {}, None
            for e in b.outgoing:
                if e.cond is None:
                    default = idx[e.dst]
                else:
                    edges[float(e.cond)] = idx[e.dst]
            self.blocks.append((stmts, test, edges, default))

    # -- places
    def temp(self, t):
        if t.name not in self.slots:
            self.slots[t.name] = self.total
            self.sizes[t.name] = t.size
            self.total += t.size
        elif self.sizes[t.name] != t.size:
            raise Fault("temp", f"temporary {t.name} has two sizes")
        return self.slots[t.name], t.size

    def index(self, x):
        if isinstance(x, (int, float)):
            return float(x), None
        if type(x).__name__ == "BlockPlace":
            return None, self.load(x)
        return None, self.expr(x)

    def place(self, p):
        """-> (temp base, size, const index | None, index closure) or (None, block closure, ...)"""
        if type(p).__name__ != "BlockPlace":
            raise Fault("place", f"unexpected place {type(p).__name__}")
        ci, fi = self.index(p.index)
        if type(p.block).__name__ == "TempBlock":
            base, size = self.temp(p.block)
            return ("t", base, size, ci, fi, float(p.offset))
        if isinstance(p.block, int):
            b = _const(float(int(p.block)))
        elif type(p.block).__name__ == "BlockPlace":
            b = self.load(p.block)
        else:
            b = self.expr(p.block)
        return ("b", b, None, ci, fi, float(p.offset))

    def load(self, p):
        k, b, size, ci, fi, off = self.place(p)
        if k == "t":
            if ci is not None:
                n = b + int(ci + off)
                if not 0 <= ci + off < size:
                    def bad(m):
                        raise Fault("temp-range", f"read of temp[{ci + off}] (size {size})")
                    return bad

                def rd(m):
                    v = m.temps[n]
                    if v is UNSET:
                        m.uninit += 1
                        return 0.0
                    return v
                return rd

            def rdx(m):
                i = fi(m) + off
                if i != i or not 0 <= i < size or int(i) != i:
                    raise Fault("temp-range", f"read of temp[{i}] (size {size})")
                v = m.temps[b + int(i)]
                if v is UNSET:
                    m.uninit += 1
                    return 0.0
                return v
            return rdx
        if ci is not None:
            i = ci + off
            return lambda m: m.read(b(m), i)
        return lambda m: m.read(b(m), fi(m) + off)

    def expr(self, e):
        t = type(e).__name__
        if t == "IRConst":
            return _const(float(e.value))
        if t == "IRGet":
            return self.load(e.place)
        if t in ("IRPureInstr", "IRInstr"):
            self.ops.add(e.op.value)
            args = [self.expr(a) for a in e.args]
            v = e.op.value
            return (_multiply(args) if v == "Multiply" else _divide(args) if v == "Divide" else _equal(v, args) if v in ("Equal", "NotEqual") else build(v, args))
        if t == "BlockPlace":
            return self.load(e)
        if isinstance(e, (int, float)):
            return _const(float(e))
        raise Fault("ir", f"unexpected {t} in a CFG")

    def stmt(self, s):
        if type(s).__name__ != "IRSet":
            return self.expr(s)
        k, b, size, ci, fi, off = self.place(s.place)
        v = self.expr(s.value)
        if k == "t":
            def st(m):
                i = (ci if ci is not None else fi(m)) + off
                val = v(m)
                if i != i or not 0 <= i < size or int(i) != i:
                    raise Fault("temp-range", f"write of temp[{i}] (size {size})")
                m.temps[b + int(i)] = val
            return st

        def sb(m):
            bb = b(m)
            i = (ci if ci is not None else fi(m)) + off
            m.write(bb, i, v(m))
        return sb

    def run(self, m):
        m.temps = [UNSET] * self.total
        m.uninit = m.unspec = m.near = 0
        i = 0
        try:
            while True:
                m.tick()
                stmts, test, edges, default = self.blocks[i]
                for s in stmts:
                    s(m)
                t = test(m)
                n = edges.get(t)
                if n is None:
                    n = default
                    if len(edges) > 1 and any(abs(t - c) < 1e-9 for c in edges):
                        m.near += 1
                if n is None:
                    return 0.0
                i = n
        except BreakEx as e:
            return e.value
