"""Random engine sources.

A program is a list of text nodes: a line, or [header, [nodes]].  The same text is compiled by the library and executed by
CPython against the oracle's classes, so every construct here has one documented meaning on both sides.
"""

from __future__ import annotations

import ast
import builtins
import re

REC = "rec"
ARR = "arr"


def render(nodes, ind=0):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append("    " * ind + n)
        else:
            out.append("    " * ind + n[0])
            body = render(n[1], ind + 1)
            out.extend(body or ["    " * (ind + 1) + "pass"])
    return out


def text(nodes):
    return "\n".join(render(nodes)) + "\n"


class Lib:
    """What the program declares: record classes, level memory, archetypes, helpers."""

    def __init__(self):
        self.recs = {}  # name -> [(field, type)]
        self.ops = {}  # name -> operators the record defines
        self.helpers = []  # (name, [param types], result type or None)
        self.level = []  # (owner, field, type)
        self.enums = []
        self.writes = set()  # (helper, parameter) it writes to


def size(t, lib):
    if t in ("i", "f"):
        return 1
    if t[0] == REC:
        return sum(size(x, lib) for _, x in lib.recs[t[1]])
    if t[0] == ARR:
        return size(t[1], lib) * t[2]
    if t[0] == "var":
        return 1 + size(t[1], lib) * t[2]
    if t[0] == "set":
        return 1 + size(t[1], lib) * t[2]
    if t[0] == "map":
        return 1 + (size(t[1], lib) + size(t[2], lib)) * t[3]
    if t[0] == "pair":
        return size(t[1], lib) + size(t[2], lib)
    if t[0] in ("ref", "refs", "reflink"):
        return {"ref": 1, "refs": 2, "reflink": 2}[t[0]]
    raise KeyError(t)


def ann(t):
    if t == "i":
        return "int"
    if t == "f":
        return "float"
    if t[0] == REC:
        return t[1]
    if t[0] == ARR:
        return f"Array[{ann(t[1])}, {t[2]}]"
    if t[0] == "var":
        return f"VarArray[{ann(t[1])}, {t[2]}]"
    if t[0] == "set":
        return f"ArraySet[{ann(t[1])}, {t[2]}]"
    if t[0] == "map":
        return f"ArrayMap[{ann(t[1])}, {ann(t[2])}, {t[3]}]"
    if t[0] == "pair":
        return f"Pair[{ann(t[1])}, {ann(t[2])}]"
    if t[0] == "ref":
        return f"EntityRef[{t[1]}]"
    if t[0] == "refs":
        return f"Array[EntityRef[{t[1]}], 2]"
    if t[0] == "reflink":
        return f"Lk{t[1]}"
    raise KeyError(t)


class Scope:
    def __init__(self, names=None, paths=None, ro=None):
        self.names = dict(names or {})  # local name -> type
        self.paths = list(paths or [])  # (text, type, writable)
        self.ro = set(ro or ())  # locals that must not be assigned
        self.refs = []  # references to entities: (text, archetype or "Any", writable)

    def copy(self):
        s = Scope(self.names, self.paths, self.ro)
        s.refs = list(self.refs)
        return s


class Gen:
    helper_body = False

    def __init__(self, rng, cfg=None):
        self.r = rng
        self.lib = Lib()
        self.n = 0
        self.cfg = {"err": 0.0, "rand": 0.0, "log": 1.0, "containers": True, "yield": True, **(cfg or {})}
        self.loop = 0
        self.budget = 0
        self.in_fn = None
        self.ctr = 0
        self.can_log = True
        self.last_w = True

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    # ---- places: readable things of a type ---------------------------------------------------------------------

    def expand(self, text_, t, w, out, depth=0):
        """All places of basic or compound type reachable from one name."""
        out.append((text_, t, w))
        if depth > 2 or t in ("i", "f"):
            return
        if t[0] == REC:
            for f, ft in self.lib.recs[t[1]]:
                self.expand(f"{text_}.{f}", ft, w, out, depth + 1)
        elif t[0] == "pair":
            self.expand(f"{text_}.first", t[1], w, out, depth + 1)
            self.expand(f"{text_}.second", t[2], w, out, depth + 1)
        elif t[0] == ARR:
            out.append((text_, t, w))
            self.expand(f"{text_}[{self.r.randrange(-t[2], t[2])}]", t[1], w, out, depth + 1)
            self.expand(f"{text_}[§]", t[1], w, out, depth + 1)

    def places(self, sc, want=None, writable=False):
        out = []
        for nm, t in sc.names.items():
            # a local number is assignable itself; a local object is a reference to storage that may be read-only
            self.expand(nm, t, nm not in sc.ro, out)
        for tx, t, w in sc.paths:
            self.expand(tx, t, w, out)
        if want is not None:
            out = [p for p in out if want(p[1])]
        if writable:
            out = [p for p in out if p[2]]
        return out

    def place(self, sc, want, writable=False, d=1):
        ps = self.places(sc, want, writable)
        if not ps:
            return None
        tx, t, w = self.r.choice(ps)
        self.last_w = w
        while "§" in tx:
            # dynamic index into the array just before the mark
            pre = tx[: tx.index("§") - 1]
            n = self.alen(pre, sc)
            tx = tx.replace("§", self.index(sc, n, d), 1)
        return tx, t

    def alen(self, pre, sc):
        for tx, t, _ in self.places(sc):
            if tx == pre and t not in ("i", "f") and t[0] == ARR:
                return t[2]
        # dynamic prefix: find by static shape
        import re

        shape = re.sub(r"\[[^\]]*\]", "[]", pre)
        for tx, t, _ in self.places(sc):
            if t not in ("i", "f") and t[0] == ARR and re.sub(r"\[[^\]]*\]", "[]", tx) == shape:
                return t[2]
        return 1

    def index(self, sc, n, d):
        r = self.r
        if r.random() < 0.25:
            return str(r.randrange(-n, n))
        e = self.leaf_i(sc)
        if r.random() < 0.15:
            return f"{e} % {n} - {n}"
        return f"{e} % {n}"

    # ---- numbers ------------------------------------------------------------------------------------------------

    def leaf_i(self, sc):
        r = self.r
        ps = [p for p in self.places(sc, lambda t: t == "i") if "§" not in p[0]]
        if ps and r.random() < 0.75:
            return r.choice(ps)[0]
        return str(r.choice((0, 1, 2, 3, 4, 5, 7, 9, 10, 12, 30, -1, -2, -3)))

    def num(self, sc, t, d=2):
        return self.int_(sc, d) if t == "i" else self.float_(sc, d)

    def int_(self, sc, d):
        r = self.r
        if d <= 0:
            if r.random() < 0.3:
                p = self.place(sc, lambda t: t == "i", d=0)
                if p:
                    return p[0]
            return self.leaf_i(sc)
        k = r.random()
        a = lambda: self.int_(sc, d - 1)  # noqa: E731
        if k < 0.12:
            return self.int_(sc, 0)
        if k < 0.4:
            return f"({a()} {r.choice('+-*+-')} {a()})"
        if k < 0.48:
            return f"({a()} {r.choice(('//', '%'))} {r.choice((2, 3, 5, 7, -3))})"
        if k < 0.52:
            return f"({a()} {r.choice(('//', '%'))} ({a()} % 5 + 1))"
        if k < 0.56:
            return f"({a()} if {self.cond(sc, d - 1)} else {a()})"
        if k < 0.6:
            return f"{r.choice(('min', 'max'))}({', '.join(a() for _ in range(r.choice((2, 2, 3))))})"
        if k < 0.64:
            return f"({self.cond(sc, d - 1)} + {a()})"
        if k < 0.67:
            return f"({a()} {r.choice(('and', 'or'))} {a()})"
        if k < 0.7:
            return f"{r.choice(('int', 'round', 'math.floor', 'math.ceil', 'math.trunc'))}({self.float_(sc, d - 1)})"
        if k < 0.73:
            return f"abs({a()})" if r.random() < 0.6 else f"(-{a()})"
        if k < 0.75:
            return f"({a()} % 6) ** {r.choice((0, 1, 2, 3))}"
        if k < 0.84:
            return self.reduce(sc, d) or a()
        if k < 0.92:
            return self.call(sc, "i", d) or a()
        if k < 0.95:
            v = self.fresh("w")
            e = f"({v} := {a()})"
            return f"({e} + {v} * 2)"
        if k < 0.975:
            q = self.fresh("q")
            return f"(lambda {q}: {self.int_(self.with_local(sc, q, 'i'), d - 1)})({a()})"
        return a()

    def with_local(self, sc, nm, t):
        s = sc.copy()
        s.names[nm] = t
        s.ro.add(nm)
        return s

    def float_(self, sc, d):
        r = self.r
        if d <= 0:
            p = self.place(sc, lambda t: t == "f", d=0) if r.random() < 0.75 else None
            if p:
                return p[0]
            return str(r.choice((0.5, 0.25, -0.5, 1.5, 2.0, -1.25, 3.75, 0.0, 8.0)))
        k = r.random()
        a = lambda: self.float_(sc, d - 1)  # noqa: E731
        if k < 0.15:
            return self.float_(sc, 0)
        if k < 0.5:
            return f"({a()} {r.choice('+-*')} {a()})"
        if k < 0.58:
            return f"({a()} / {r.choice((2, 4, 8, 0.5))})"
        if k < 0.62:
            return f"({a()} if {self.cond(sc, d - 1)} else {a()})"
        if k < 0.7:
            return f"{r.choice(('min', 'max'))}({a()}, {a()})"
        if k < 0.76:
            return f"clamp({a()}, {r.choice((-2.0, 0.0))}, {r.choice((1.0, 6.5))})"
        if k < 0.82:
            return f"({self.int_(sc, d - 1)} * 0.25)"
        if k < 0.88:
            return f"abs({a()})" if r.random() < 0.6 else f"(-{a()})"
        return self.call(sc, "f", d) or a()

    def cond(self, sc, d):
        r = self.r
        k = r.random()
        if k < 0.5 or d <= 0:
            x, y = self.int_(sc, min(d, 1)), self.int_(sc, min(d, 1))
            if r.random() < 0.25:
                x, y = self.float_(sc, min(d, 1)), self.float_(sc, min(d, 1))
            return f"({x} {r.choice(('<', '<=', '>', '>=', '==', '!='))} {y})"
        if k < 0.58:
            return f"({self.int_(sc, d - 1)} {r.choice('<>')} {self.int_(sc, d - 1)} {r.choice(('<', '<=', '!='))} {self.int_(sc, d - 1)})"
        if k < 0.7:
            return f"({self.cond(sc, d - 1)} {r.choice(('and', 'or'))} {self.cond(sc, d - 1)})"
        if k < 0.78:
            return f"(not {self.cond(sc, d - 1)})"
        if k < 0.84:
            return f"({self.int_(sc, d - 1)} {r.choice(('in', 'not in'))} ({', '.join(str(r.randrange(-3, 9)) for _ in range(r.choice((2, 3, 5))))}))"
        if k < 0.92:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in (REC, ARR, "var"), d=0)
            q = p and self.place(sc, lambda t: t == p[1], d=0)
            if q:
                return f"({p[0]} {r.choice(('==', '!='))} {q[0]})"
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in ("set", "var", "map", ARR), d=0)
        if p:
            e = self.value(sc, p[1][1], d - 1)
            return f"({e} {r.choice(('in', 'not in'))} {p[0]})"
        return f"({self.int_(sc, d - 1)} > 2)"

    def reduce(self, sc, d):
        r = self.r
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in (ARR, "var") and t[1] == "i", d=0)
        if not p:
            return None
        tx, t = p
        q = self.fresh("q")
        s = self.with_local(sc, q, "i")
        k = r.randrange(9)
        if k == 0:
            return f"sum({tx})"
        if k == 1 and t[0] == ARR:
            return f"{r.choice(('max', 'min'))}({tx})"
        if k == 2:
            return f"{r.choice(('any', 'all'))}({self.cond(s, 0)} for {q} in {tx})"
        if k == 3:
            return f"sum({self.int_(s, 1)} for {q} in {tx} if {self.cond(s, 0)})"
        if k == 4:
            return f"{tx}.count({self.leaf_i(sc)})"
        if k == 5:
            return f"{tx}.{r.choice(('index', 'last_index'))}({self.leaf_i(sc)})"
        if k == 6:
            return f"{tx}.{r.choice(('index_of_max', 'index_of_min'))}()"
        if k == 7:
            return f"len({tx})"
        return f"sum({self.int_(s, 1)} for {q} in range({r.choice((0, 1, 3, 4))}))"

    def call(self, sc, t, d):
        hs = [h for h in self.lib.helpers if h[2] == t and (self.can_log or h[3])]
        if not hs:
            return None
        h = self.r.choice(hs)
        return self.invoke(sc, h, d)

    def invoke(self, sc, h, d):
        args = []
        for pn, pt in h[1]:
            a = self.arg(sc, pt, d - 1, (h[0], pn) in self.lib.writes)
            if a is None:
                return None
            args.append((pn, a))
        if self.r.random() < 0.15 and len(args) > 1:
            k = self.r.randrange(len(args))
            return f"{h[0]}({', '.join([a for _, a in args[:k]] + [f'{n}={a}' for n, a in args[k:]])})"
        return f"{h[0]}({', '.join(a for _, a in args)})"

    def arg(self, sc, t, d, w=False):
        if t in ("i", "f"):
            return self.num(sc, t, d)
        p = self.place(sc, lambda x: x == t, w, d=0)
        if p and self.r.random() < 0.85:
            return p[0]
        return self.value(sc, t, d)

    def value(self, sc, t, d):
        """A fresh value of a type."""
        r = self.r
        if t in ("i", "f"):
            return self.bound(self.num(sc, t, d), t) if d > 0 else self.num(sc, t, 0)
        if t[0] == REC:
            p = self.place(sc, lambda x: x == t, d=0)
            if p and r.random() < 0.25:
                return f"+{p[0]}" if r.random() < 0.5 else f"copy({p[0]})"
            if r.random() < 0.1:
                return f"+{t[1]}"
            fs = self.lib.recs[t[1]]
            vs = [self.value(sc, ft, d - 1) for _, ft in fs]
            if r.random() < 0.3:
                return f"{t[1]}({', '.join(f'{f}={v}' for (f, _), v in zip(fs, vs))})"
            return f"{t[1]}({', '.join(vs)})"
        if t[0] == "pair":
            return f"Pair[{ann(t[1])}, {ann(t[2])}]({self.value(sc, t[1], d - 1)}, {self.value(sc, t[2], d - 1)})"
        if t[0] == ARR:
            if r.random() < 0.15:
                return f"+{ann(t)}"
            return f"{ann(t)}({', '.join(self.value(sc, t[1], d - 1) for _ in range(t[2]))})"
        return f"{ann(t)}.new()"

    def bound(self, e, t):
        if t == "f":
            return f"clamp({e}, -64.0, 64.0)"
        k = self.r.random()
        if k < 0.6:
            return f"({e}) % {self.r.choice((11, 17, 50, 97))}"
        if k < 0.8:
            return f"clamp({e}, -40, 40)"
        return f"max(-40, min(40, {e}))"

    # ---- statements ---------------------------------------------------------------------------------------------

    def block(self, sc, n, d, own=False):
        out = []
        s = sc if own else sc.copy()
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            self.stmt(s, d, out)
        # what was computed becomes visible
        if self.can_log and self.r.random() < 0.4:
            names = [x for x, t in s.names.items() if t in ("i", "f")]
            for x in self.r.sample(names, min(len(names), 3)):
                out.append(f"debug_log({x})")
        return out

    def stmt(self, sc, d, out):
        r = self.r
        kinds = ["new", "new", "assign", "assign", "assign", "aug", "log", "log", "obj", "mut", "if", "if", "for", "while", "match", "callst", "swap", "multi", "unpack"]
        if self.cfg["containers"]:
            kinds += ["cont", "cont"]
        if self.loop:
            kinds += ["brk"]
        if self.in_fn is not None:
            kinds += ["ret"]
        if self.cfg["err"]:
            kinds += ["err"] * 3
        if self.cfg["rand"]:
            kinds += ["rand"] * 2
        kinds += ["closure", "maybe", "sideff", "lang", "lang"]
        if self.cfg["yield"]:
            kinds += ["gen"]
        for _ in range(6):
            k = r.choice(kinds)
            if k in ("if", "for", "while", "match", "gen") and d <= 0:
                continue
            if getattr(self, "st_" + k)(sc, d, out):
                return
        self.st_new(sc, d, out)

    def st_new(self, sc, d, out):
        t = self.r.choice(("i", "i", "f"))
        v = self.fresh()
        e = self.bound(self.num(sc, t, 2), t)
        k = self.r.random()
        if k < 0.1:
            out.append(f"{v}: {ann(t)} = {e}")
        elif k < 0.2:
            w = self.fresh()
            out.append(f"{w} = {v} = {e}")
            sc.names[w] = t
        else:
            out.append(f"{v} = {e}")
        sc.names[v] = t
        return True

    def st_assign(self, sc, d, out):
        p = self.place(sc, lambda t: t in ("i", "f"), True)
        if not p:
            return False
        out.append(f"{p[0]} = {self.bound(self.num(sc, p[1], 2), p[1])}")
        return True

    def st_aug(self, sc, d, out):
        p = self.place(sc, lambda t: t in ("i", "f"), True, d=0)
        if not p:
            return False
        tx, t = p
        r = self.r
        if t == "i":
            op = r.choice(("+=", "-=", "*=", "%=", "//="))
            e = str(r.choice((2, 3, 5))) if op in ("%=", "//=") else f"({self.int_(sc, 1)}) % 13"
        else:
            op = r.choice(("+=", "-=", "*=", "/="))
            e = str(r.choice((2, 4))) if op == "/=" else str(r.choice((0.5, 1.25, -0.75)))
        out.append(f"{tx} {op} {e}")
        out.append(f"{tx} = {self.bound(tx, t)}")
        return True

    def st_log(self, sc, d, out):
        if not self.can_log:
            return False
        t = self.r.choice("iif")
        out.append(f"debug_log({self.num(sc, t, 2)})")
        return True

    def st_obj(self, sc, d, out):
        ts = [(REC, n) for n in self.lib.recs] + [(ARR, "i", self.r.choice((1, 2, 3, 5))), (ARR, "f", 2)]
        ts += [(ARR, (REC, n), self.r.choice((2, 3))) for n in self.lib.recs if size((REC, n), self.lib) <= 6]
        t = self.r.choice(ts)
        v = self.fresh("o")
        p = self.place(sc, lambda x: x == t, d=1)
        w = self.last_w
        if p and self.r.random() < 0.35:
            out.append(f"{v} = {p[0]}")  # a reference, not a copy
            if not w:
                sc.ro.add(v)
        else:
            out.append(f"{v} = {self.value(sc, t, 1)}")
        sc.names[v] = t
        return True

    def st_mut(self, sc, d, out):
        """Whole objects: assignment through a path copies, @= copies."""
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in (REC, ARR), True, d=1)
        if not p:
            return False
        tx, t = p
        q = self.place(sc, lambda x: x == t, d=1)
        e = q[0] if q and self.r.random() < 0.6 else self.value(sc, t, 1)
        if "." in tx or "[" in tx:
            out.append(f"{tx} {self.r.choice(('=', '=', '@='))} {e}")
        else:
            out.append(f"{tx} @= {e}")
        return True

    def st_swap(self, sc, d, out):
        p = self.place(sc, lambda t: t in ("i",), True, d=0)
        q = self.place(sc, lambda t: t in ("i",), True, d=0)
        if not p or not q or p[0] == q[0]:
            return False
        out.append(f"{p[0]}, {q[0]} = {q[0]}, {p[0]}")
        return True

    def st_multi(self, sc, d, out):
        r = self.r
        a, b = self.fresh(), self.fresh()
        out.append(f"{a}, {b} = {self.bound(self.int_(sc, 1), 'i')}, {self.bound(self.float_(sc, 1), 'f')}")
        sc.names[a], sc.names[b] = "i", "f"
        return True

    def st_unpack(self, sc, d, out):
        a, b, c = self.fresh(), self.fresh(), self.fresh()
        out.append(f"({a}, {b}), {c} = ({self.bound(self.int_(sc, 1), 'i')}, {self.leaf_i(sc)}), {self.leaf_i(sc)}")
        for x in (a, b, c):
            sc.names[x] = "i"
        return True

    def st_if(self, sc, d, out):
        r = self.r
        out.append([f"if {self.cond(sc, 2)}:", self.block(sc, r.choice((1, 2, 3)), d - 1)])
        while r.random() < 0.3:
            out.append([f"elif {self.cond(sc, 1)}:", self.block(sc, r.choice((1, 2)), d - 1)])
        if r.random() < 0.5:
            out.append(["else:", self.block(sc, r.choice((1, 2)), d - 1)])
        return True

    def st_brk(self, sc, d, out):
        out.append([f"if {self.cond(sc, 1)}:", [self.r.choice(("break", "continue"))]])
        return True

    def st_ret(self, sc, d, out):
        if self.in_fn == "i" or self.in_fn == "f":
            out.append([f"if {self.cond(sc, 1)}:", [f"return {self.bound(self.num(sc, self.in_fn, 1), self.in_fn)}"]])
        else:
            out.append([f"if {self.cond(sc, 1)}:", ["return"]])
        return True

    def st_while(self, sc, d, out):
        r = self.r
        c = self.fresh("c")
        out.append(f"{c} = {r.choice((0, 0, 1))}")
        s = sc.copy()
        s.names[c] = "i"
        s.ro.add(c)
        self.loop += 1
        body = self.block(s, r.choice((1, 2, 3)), d - 1)
        self.loop -= 1
        lim = r.choice((1, 2, 3, 4, 6))
        cond = f"{c} < {lim}" if r.random() < 0.6 else f"{c} < {lim} and {self.cond(sc, 1)}"
        out.append([f"while {cond}:", [f"{c} += 1", *body]])
        if r.random() < 0.3:
            out.append(["else:", self.block(sc, r.choice((1, 2)), d - 1)])
        return True

    def st_for(self, sc, d, out):
        r = self.r
        i = self.fresh("i")
        s = sc.copy()
        k = r.random()
        hdr = None
        ro = True
        if k < 0.3:
            a = r.choice((0, 1, 2, 4))
            it = r.choice((f"range({a})", f"range({a}, {a + r.choice((0, 1, 3))})", f"range({a}, {r.choice((-2, 9))}, {r.choice((2, 3))})", f"range({a + 4}, {a}, {r.choice((-1, -2))})",
                           f"range({self.leaf_i(sc)} % 5)", f"range({self.leaf_i(sc)} % 3, {self.leaf_i(sc)} % 6)", f"reversed(range({a}))"))
            hdr = f"for {i} in {it}:"
            s.names[i] = "i"
        elif k < 0.7:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in (ARR, "var"), d=0)
            if not p:
                return False
            tx, t = p
            s.names[i] = t[1]
            ro = not self.last_w or t[1] in ("i", "f")
            m = r.random()
            # the array is not resized by the body: its iterator is live
            s.paths = [x for x in s.paths if x[1] in ("i", "f") or x[1][0] not in ("var", "map", "set")]
            if m < 0.4:
                hdr = f"for {i} in {tx}:"
            elif m < 0.6:
                j = self.fresh("j")
                s.names[j] = "i"
                s.ro.add(j)
                st = r.choice(("", "", ", 1", ", start=2"))
                hdr = f"for {j}, {i} in enumerate({tx}{st}):"
            elif m < 0.75:
                hdr = f"for {i} in reversed({tx}):"
            elif m < 0.9:
                j = self.fresh("j")
                s.names[j] = "i"
                s.ro.add(j)
                hdr = f"for {i}, {j} in zip({tx}, range({r.choice((1, 2, 4))})):"
            elif t[1] == "i":
                q = self.fresh("q")
                s.ro.add(i)
                s.names[i] = "i"
                hdr = f"for {i} in ({self.int_(self.with_local(sc, q, 'i'), 1)} for {q} in {tx} if {self.cond(self.with_local(sc, q, 'i'), 0)}):"
            else:
                hdr = f"for {i} in {tx}:"
        else:
            n = r.choice((1, 2, 3))
            s.names[i] = "i"
            m = r.random()
            if m < 0.4:
                hdr = f"for {i} in ({', '.join(self.int_(sc, 1) for _ in range(n))},):"
            elif m < 0.7:
                j = self.fresh("j")
                s.names[j] = "f"
                s.ro.add(j)
                hdr = f"for {i}, {j} in ({', '.join(f'({self.int_(sc, 1)}, {self.float_(sc, 0)})' for _ in range(n))},):"
            else:
                q = self.fresh("q")
                hdr = f"for {i} in ({self.int_(self.with_local(sc, q, 'i'), 1)} for {q} in ({', '.join(str(r.randrange(-3, 9)) for _ in range(n))},) if {self.cond(self.with_local(sc, q, 'i'), 0)}):"
        if ro:
            s.ro.add(i)
        e = sc.copy()
        if " in (" in hdr and " for " in hdr[4:]:
            # names a generator expression captures must not be assigned while it is used
            cap = set(re.findall(r"[A-Za-z_]\w*", hdr)) & set(sc.names)
            s.ro |= cap
            e.ro |= cap
        self.loop += 1
        body = self.block(s, r.choice((1, 2, 3)), d - 1)
        self.loop -= 1
        out.append([hdr, body])
        if r.random() < 0.3:
            out.append(["else:", self.block(e, r.choice((1, 2)), d - 1)])
        return True

    def st_match(self, sc, d, out):
        r = self.r
        k = r.random()
        cases = []
        if k < 0.55:
            e = f"({self.int_(sc, 1)}) % {r.choice((3, 4, 6))}"
            for _ in range(r.choice((1, 2, 3, 5))):
                pat = r.choice((str(r.randrange(6)), f"{r.randrange(3)} | {3 + r.randrange(3)}"))
                if r.random() < 0.15:
                    x = self.fresh("m")
                    cases.append([f"case {x} if {self.cond(self.with_local(sc, x, 'i'), 0)}:", self.block(self.with_local(sc, x, "i"), 1, d - 1)])
                else:
                    cases.append([f"case {pat}:", self.block(sc, r.choice((1, 2)), d - 1)])
        elif k < 0.8:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] == REC, d=0)
            if not p:
                return False
            e, t = p
            w = self.last_w
            fs = self.lib.recs[t[1]]
            x = self.fresh("m")
            basic = [(f, ft) for f, ft in fs if ft == "i"]
            if basic:
                f, _ = r.choice(basic)
                cases.append([f"case {t[1]}({f}={r.randrange(4)}):", self.block(sc, 1, d - 1)])
                cases.append([f"case {t[1]}({f}={x}) if {x} > {r.randrange(8)}:", self.block(self.with_local(sc, x, "i"), 1, d - 1)])
            y = self.fresh("m")
            s = sc.copy()
            s.names[y] = t
            if not w:
                s.ro.add(y)
            if fs[0][1] in ("i", "f"):
                z = self.fresh("m")
                cases.append([f"case {t[1]}({z}):", self.block(self.with_local(sc, z, fs[0][1]), 1, d - 1)])
            else:
                cases.append([f"case {t[1]}() as {y}:", self.block(s, 1, d - 1)])
        else:
            a, b = self.fresh("m"), self.fresh("m")
            e = f"({self.int_(sc, 1)} % 3, {self.int_(sc, 1)})"
            cases.append([f"case ({r.randrange(3)}, {b}):", self.block(self.with_local(sc, b, "i"), 1, d - 1)])
            s = self.with_local(self.with_local(sc, a, "i"), b, "i")
            cases.append([f"case ({a}, {b}) if {self.cond(s, 0)}:", self.block(s, 1, d - 1)])
        if r.random() < 0.6:
            cases.append(["case _:", self.block(sc, 1, d - 1)])
        out.append([f"match {e}:", cases])
        return True

    def st_callst(self, sc, d, out):
        hs = [h for h in self.lib.helpers if self.can_log or h[3]]
        if not hs:
            return False
        h = self.r.choice(hs)
        c = self.invoke(sc, h, 1)
        if c is None:
            return False
        out.append(c)
        return True

    def st_sideff(self, sc, d, out):
        """Order of evaluation: reads, calls with effects and stores in one statement."""
        if not self.can_log or not any(h[0] == "tick" for h in self.lib.helpers):
            return False
        r = self.r
        p = self.place(sc, lambda t: t == "i", True, d=0)
        if not p:
            return False
        a, b, c = (f"tick({self.leaf_i(sc)})" for _ in range(3))
        x = r.choice((f"{p[0]} + {a}", f"{a} + {p[0]} * {b}", f"{a} if {b} > {r.randrange(9)} else {c}", f"{a} and {b}", f"{a} or {b}", f"({a} < {b} < {c})",
                      f"max({a}, {b}, {c})", f"{a} - {b}", f"(lambda x, y=3: x - y)({a}, y={b})"))
        out.append(f"{p[0]} = ({x}) % 23")
        return True

    def st_closure(self, sc, d, out):
        r = self.r
        f, x, y = self.fresh("f"), self.fresh("x"), self.fresh("y")
        s = self.with_local(self.with_local(sc, x, "i"), y, "i")
        if r.random() < 0.5:
            out.append(f"{f} = lambda {x}, {y}={r.randrange(5)}: {self.int_(s, 1)}")
        else:
            body = [f"return {self.int_(s, 1)}"]
            if r.random() < 0.4:
                body.insert(0, [f"if {self.cond(s, 1)}:", [f"return {self.int_(s, 0)}"]])
            out.append([f"def {f}({x}, {y}={r.randrange(5)}):", body])
        v = self.fresh()
        out.append(f"{v} = ({f}({self.int_(sc, 1)}) + {f}({self.leaf_i(sc)}, {self.leaf_i(sc)})) % 31")
        sc.names[v] = "i"
        return True

    def st_lang(self, sc, d, out):
        """Parts of the language beyond arithmetic and control flow: literals of collections, argument passing, truth values, builtins, dynamic attributes."""
        r = self.r
        v = self.fresh()
        can_tick = self.can_log and any(h[0] == "tick" for h in self.lib.helpers)
        i = lambda: f"tick({self.leaf_i(sc)})" if can_tick and r.random() < 0.15 else self.int_(sc, 1)  # noqa: E731
        n = lambda: r.randrange(-2, 8)  # noqa: E731
        seq = lambda: self.place(sc, lambda t: t not in ("i", "f") and t[0] in (ARR, "var") and t[1] == "i", d=0)  # noqa: E731
        fn = r.choice((self.lang_dict, self.lang_set, self.lang_tuple, self.lang_args, self.lang_truth, self.lang_iter, self.lang_obj, self.lang_ops, self.lang_ops, self.lang_const, self.lang_loop,
                       self.lang_key))
        e = fn(sc, out, i, n, seq)
        if e is None:
            return False
        out.append(f"{v} = ({e}) % 37")
        if self.can_log and r.random() < 0.6:
            out.append(f"debug_log({v})")
        sc.names[v] = "i"
        return True

    def lang_dict(self, sc, out, i, n, seq):
        r = self.r
        m = self.fresh("m")
        k = r.randrange(7)
        keys = r.sample(range(-3, 9), r.choice((1, 2, 3, 5, 8)))
        if r.random() < 0.2:
            keys[0] = r.choice((0.5, 2.5, -1.5))
        const = "{" + ", ".join(f"{a}: {n()}" for a in keys) + "}"
        if k == 0 and r.random() < 0.6:
            a, x = self.fresh("a"), self.fresh("s")
            out.append(f"{m} = {const}")
            out.append(f"{x} = 0")
            get = r.choice((f"{m}.get({a}, {i()})", f"({a} in {m})", f"({m}[{a}] if {a} in {m} else {i()})", f"({a} not in {m}) * {i()}"))
            out.append([f"for {a} in range(-4, 10):", [f"{x} = ({x} * 3 + {get}) % 1009"]])
            return f"int({x} * 2)"
        if k == 0:
            out.append(f"{m} = {const}")
            e = i()
            return f"{m}.get({e}, {i()}) + len({m})"
        if k == 1:
            x = self.fresh()
            out.append(f"{x} = {i()}")
            return f"{const}[{x}] if {x} in {'(' + ', '.join(map(str, keys)) + ',)'} else {i()}"
        if k == 2:
            out.append(f"{m} = {{{', '.join(f'{a}: {i()}' for a in keys)}}}")
            return f"{m}[{r.choice(keys)}] + {m}.get({r.choice((*keys, 77))}, {i()}) * 3"
        if k == 3:
            a, b = self.fresh("a"), self.fresh("b")
            x = self.fresh("s")
            out.append(f"{x} = 0")
            src = f"{{{', '.join(f'{q}: {i()}' for q in keys[:4])}}}"
            kind = r.choice(("items", "keys", "values", ""))
            out.append([f"for {a}, {b} in {src}.items():" if kind == "items" else f"for {a} in {src}.{kind}():" if kind else f"for {a} in {src}:",
                        [f"{x} = {x} * 2 + {a}" + (f" - {b}" if kind == "items" else ""), *([[f"if {x} > 9:", [r.choice(("break", "continue"))]]] if r.random() < 0.5 else [])]])
            if r.random() < 0.3:
                out.append(["else:", [f"{x} = {x} + 100"]])
            return f"int({x} * 2)"
        if k == 4:
            o = "{" + ", ".join(f"{a}: {n()}" for a in r.sample(range(-3, 9), 3)) + "}"
            return f"int(({const} | {o}).get({i()}, {i()}) * 2)"
        if k == 5:
            pairs = r.sample([(a, b) for a in range(3) for b in range(3)], r.choice((1, 2, 4, 6, 9)))
            if r.random() < 0.7:
                a, b, x = self.fresh("a"), self.fresh("b"), self.fresh("s")
                out.append(f"{m} = {{{', '.join(f'{p}: {n()}' for p in pairs)}}}")
                out.append(f"{x} = 0")
                get = r.choice((f"{m}.get(({a}, {b}), -3)", f"(({a}, {b}) in {m})", f"({m}[{a}, {b}] if ({a}, {b}) in {m} else 5)"))
                out.append([f"for {a} in range({r.choice((-1, 0))}, 3):", [[f"for {b} in range({r.choice((3, 4))}):", [f"{x} = ({x} * 3 + {get}) % 1009"]]]])
                return x
            return f"{{{', '.join(f'{p}: {n()}' for p in pairs)}}}.get((({i()}) % 3, ({i()}) % 3), {i()})"
        out.append(f"{m} = {{'a': {i()}, 'b': {i()}}}")
        return f"(lambda b, a=2, **kw: a * 3 - b)(**{m}) - {m}['{r.choice('ab')}']"

    def lang_set(self, sc, out, i, n, seq):
        r = self.r
        k = r.randrange(5)
        lit = lambda q: "{" + ", ".join(str(x) for x in r.sample(range(-3, 12), q)) + "}"  # noqa: E731
        if k == 0:
            return f"({i()} {r.choice(('in', 'not in'))} {lit(r.choice((1, 3, 6)))}) * 5 + {i()}"
        if k == 1:
            return f"({i()} in ({lit(2)} | {lit(3)})) * 7"
        if k == 2:
            return f"len({lit(3)} | {lit(4)}) + ({i()})"
        pairs = r.sample([(a, b) for a in range(3) for b in range(3)], r.choice((1, 2, 4, 6)))
        t = "{" + ", ".join(map(str, pairs)) + "}"
        if k == 3:
            return f"((({i()}) % 3, ({i()}) % 3) in {t}) + ({i()})"
        return f"{i()} if ({i()}) % 4 in {lit(4)} else {i()}"

    def lang_tuple(self, sc, out, i, n, seq):
        r = self.r
        t = self.fresh("t")
        q = r.choice((2, 3))
        out.append(f"{t} = ({', '.join(i() for _ in range(q))})")
        o = f"({', '.join(i() for _ in range(r.choice((q, q, 1, 4))))},)"
        k = r.randrange(9)
        if k == 8:
            a, b, z = self.fresh("a"), self.fresh("b"), self.fresh("z")
            out.append(f"{z} = 0")
            other = r.choice((f"({t}[0] % 3, {t}[1] % 2)", f"({n()}, {n()})", f"({t}[0] % 3, {t}[1] % 2, 1)", f"({t}[0] % 3,)", f"({t}[1] % 2, {b})"))
            cmp = f"({a}, {b}) {r.choice(('<', '<=', '>', '>=', '==', '!='))} {other}"
            out.append([f"for {a} in range(-1, 4):", [[f"for {b} in range(-1, 3):", [f"{z} = ({z} * 2 + ({cmp})) % 1009"]]]])
            return z
        if k == 0:
            return f"({t} {r.choice(('<', '<=', '>', '>=', '==', '!='))} {o}) + {t}[{r.randrange(-q, q)}]"
        if k == 1:
            return f"sum({t} + {o}) + len({t} + {o})"
        if k == 2:
            return f"({i()} {r.choice(('in', 'not in'))} {t}) * 4 + {r.choice(('max', 'min'))}({t})"
        if k == 3:
            x, y, z = self.fresh("x"), self.fresh("y"), self.fresh("z")
            out.append(f"{z} = 0")
            out.append([f"for {x}, {y} in zip({t}, {o}):" if r.random() < 0.5 else f"for {x}, {y} in enumerate({t}):", [f"{z} = {z} * 3 + {x} - {y}"]])
            return z
        if k == 4:
            return f"{r.choice(('any', 'all'))}({t}) * 3 + {r.choice(('any', 'all'))}({o}) + {t}[{r.randrange(q)}]"
        if k == 5:
            x = self.fresh("x")
            return f"sum({x} * 2 for {x} in reversed({t}) if {x} > {n()})"
        if k == 6:
            return f"({t} == {t}) + (({i()}, {t}) == ({i()}, {t})) * 2 + (({i()}, 2) < ({i()}, {n()})) * 4"
        out.append(f"{t} += {o}")
        return f"{t}[{r.randrange(q)}] + {t}[-1] * 2"

    def lang_args(self, sc, out, i, n, seq):
        r = self.r
        f = self.fresh("f")
        k = r.randrange(7)
        if k == 6:
            return r.choice((f"(lambda *, a, b={n()}: a * 2 - b)(a={i()})", f"(lambda a, *, c: a - c)({i()}, c={i()})", f"(lambda a, /, *b, c=2: a + len(b) * c)({i()}, 1, {i()})",
                             f"(lambda a, b={n()}: a * b)(*({i()},))"))
        if k == 0:
            out.append([f"def {f}(x, *xs, y={n()}):", [f"return x * 2 + y - sum(xs) + len(xs)"]])
            return r.choice((f"{f}({i()}, {i()}, {i()}, y={i()})", f"{f}(*({i()}, {i()}))", f"{f}({i()}, *({i()}, {i()}), {i()})", f"{f}({i()})", f"{f}(y={i()}, x={i()})"))
        if k == 1:
            out.append([f"def {f}(a, b={n()}, /, c={n()}, *, d={n()}):", ["return a + b * 2 - c * 3 + d * 5"]])
            return r.choice((f"{f}({i()}, {i()}, d={i()})", f"{f}({i()}, c={i()})", f"{f}(*({i()},), **{{'d': {i()}, 'c': {i()}}})", f"{f}({i()}, {i()}, {i()}, d={i()})"))
        if k == 2:
            g = self.fresh("g")
            out.append([f"def {f}(a, k=2):", [[f"def {g}(b):", [f"return a * k + b"]], f"return {g}"]])
            return f"{f}({i()})({i()}) + {f}({i()}, k={i()})({i()})"
        if k == 3:
            out.append([f"def {f}(a, o=None):", [["if o is None:", ["o = 3"]], ["elif a > o:", ["return o"]], "return a - o"]])
            return f"{f}({i()}) + {f}({i()}, {i()}) * 2 + {f}({i()}, o=None)"
        if k == 4:
            out.append([f"def {f}(g, *a):", ["return g(*a) + g(*reversed(a))"]])
            return f"{f}(lambda p, q=1: p - q * 2, {i()}, {i()})"
        out.append([f"def {f}(a):", [[f"if a > {n()}:", ["return a, 1"]] if False else f"return a * 2, a + {i()}, (a, 3)"]])
        a, b, c, d = (self.fresh("u") for _ in range(4))
        out.append(f"{a}, {b}, ({c}, {d}) = {f}({i()})")
        return f"{a} - {b} + {c} * {d}"

    def lang_truth(self, sc, out, i, n, seq):
        r = self.r
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in (ARR, "var", "set", "map", REC), d=0)
        if not p:
            return None
        o = p[0]
        k = r.randrange(5)
        if k == 0:
            return f"({i()} if {o} else {i()})"
        if k == 1:
            return f"(not {o}) + bool({o}) * 2 + (not not {o}) * 4"
        if k == 2:
            x = self.fresh("z")
            out.append(f"{x} = {n()}")
            out.append([f"if {o}:", [f"{x} += 2"]])
            out.append([f"elif {x} > 3:", [f"{x} -= 1"]])
            return x
        if k == 3:
            x = self.fresh("z")
            out.append(f"{x} = 0")
            out.append([f"while {o}:", [f"{x} += 1", [f"if {x} > {r.randrange(4)}:", ["break"]]]])
            out.append(["else:", [f"{x} = -5"]])
            return x
        return f"({i()} > {n()} and bool({o})) * 3 + (bool({o}) or {i()})"

    def lang_iter(self, sc, out, i, n, seq):
        r = self.r
        p = seq()
        if not p:
            return None
        a = p[0]
        x, y, z = self.fresh("x"), self.fresh("y"), self.fresh("z")
        k = r.randrange(8)
        if k == 0:
            return f"sum(map(lambda {x}: {x} * 2 + 1, {a}))"
        if k == 1:
            return f"sum(filter(lambda {x}: {x} > {n()}, {a}))"
        if k == 2:
            return f"sum(map(lambda {x}, {y}: {x} - {y} * 3, {a}, range({r.choice((1, 2, 4))})))"
        if k == 3:
            out.append(f"{z} = {n()}")
            out.append([f"for {x} in filter(lambda {y}: {y} % 2 == 0, map(lambda {y}: {y} + {n()}, {a})):", [f"{z} = ({z} * 2 - {x}) % 1009", *([[f"if {z} > 20:", ["break"]]] if r.random() < 0.5 else [])]])
            return z
        if k == 4:
            return f"{r.choice(('max', 'min'))}(({x} * {r.choice((1, -1, 2))} for {x} in {a} if {x} > {n()}), default={n()})"
        if k == 5:
            out.append(f"{z} = 0")
            out.append([f"for {x} in zip({a}, reversed({a}), range({r.choice((2, 3, 9))})):", [f"{z} = ({z} * 2 + {x}[0] - {x}[1] + {x}[2]) % 1009"]])
            return z
        if k == 6:
            out.append(f"{z} = 0")
            out.append([f"for {x} in range({r.choice((2, 3))}):", [[f"for {y} in {a}:", [[f"if {y} == {n()}:", [r.choice(("break", "continue"))]], f"{z} = ({z} * 2 + {y} - {x}) % 1009"]],
                                                                   *([["else:", [f"{z} = {z} + 3"]]] if r.random() < 0.6 else [])]])
            return z
        return f"sum({x} * {y} for {x} in {a} if {x} != {n()} for {y} in range({r.choice((1, 2, 3))}))" if False else f"{r.choice(('any', 'all'))}(map(lambda {x}: {x} > {n()}, {a})) + sum({a}, {n()})"

    def lang_obj(self, sc, out, i, n, seq):
        r = self.r
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] == REC, True, d=0)
        if not p:
            return None
        o, t = p
        fs = [f for f, ft in self.lib.recs[t[1]] if ft == "i"]
        k = r.randrange(5)
        if k == 0:
            return f"getattr({o}, '{r.choice(fs)}') + getattr({o}, 'nope', {n()}) * 2 + hasattr({o}, '{r.choice((*fs, 'nope'))}')"
        if k == 1:
            out.append(f"setattr({o}, '{r.choice(fs)}', ({i()}) % 23)")
            return f"{o}.{r.choice(fs)}"
        if k == 2:
            rs = list(self.lib.recs)
            return f"isinstance({o}, {r.choice(rs)}) + isinstance({o}, Num) * 2 + isinstance({i()}, Num) * 4 + isinstance({i()}, {t[1]}) * 8"
        if k == 3:
            x = self.fresh("x")
            return f"(lambda {x}: {x}.{r.choice(fs)} if isinstance({x}, {t[1]}) else {x})({r.choice((o, i()))})"
        f = self.fresh("f")
        rs = list(self.lib.recs)
        q = r.choice(rs)
        g = [a for a, ft in self.lib.recs[q] if ft == "i"][0]
        out.append([f"def {f}(a):", [["match a:", [["case Num(x) if x > 2:", ["return x * 2"]], ["case Num():", ["return a + 1"]],
                                                   [f"case {q}({g}=x):", ["return x - 1"]], ["case (x, y):", ["return x * 3 - y"]], ["case _:", ["return 9"]]]]]])
        return f"{f}({i()}) + {f}({o}) * 2 + {f}(({i()}, {i()})) + {f}(({i()}, 1, 2))"

    def lang_ops(self, sc, out, i, n, seq):
        """Operators a record defines."""
        r = self.r
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] == REC and self.lib.ops.get(t[1]), True, d=0)
        if not p:
            return None
        o, t = p
        ops = sorted(self.lib.ops[t[1]])
        f0 = [f for f, ft in self.lib.recs[t[1]] if ft == "i"][0]
        m = r.choice(ops)
        q = self.place(sc, lambda x: x == t, d=0)
        e = {"__mul__": f"({o} * {i()}).{f0}", "__rmul__": f"({i()} * {o}).{f0}", "__sub__": f"({o} - {i()}).{f0}", "__rsub__": f"({i()} - {o}).{f0}", "__neg__": f"(-{o}).{f0}",
             "__invert__": f"~{o}", "__getitem__": f"{o}[{i()}]", "__contains__": f"({i()} {r.choice(('in', 'not in'))} {o}) * 3", "__call__": r.choice((f"{o}({i()})", f"{o}({i()}, j={i()})")),
             "__lt__": f"({o} < {q[0]}) + ({q[0]} > {o}) * 2", "__and__": f"({o} & {i()})", "__rlshift__": f"({i()} << {o})", "__bool__": f"(not {o}) + ({i()} if {o} else {i()})",
             "__len__": f"len({o}) + bool({o}) * 4"}.get(m)
        if m == "__iadd__":
            out.append(f"{o} += {i()}")
            return f"{o}.{f0}"
        if m == "__setitem__":
            out.append(f"{o}[{i()}] = {i()}")
            return f"{o}.{f0}"
        if m in ("__mul__", "__sub__") and ("." in o or "[" in o) and r.random() < 0.5:
            out.append(f"{o} {'*-'[m == '__sub__']}= {i()}")
            return f"{o}.{f0}"
        return e

    def lang_const(self, sc, out, i, n, seq):
        """Parts decided at compile time."""
        r = self.r
        x = self.fresh("z")
        k = r.randrange(8)
        if k == 0:
            return f"{r.choice(('(0 or 5)', '(3 and 4)', '(0 and 2)', '(7 or 1)', '(not 0)', '(not 2)'))} + ({i()})"
        if k == 1:
            out.append(f"{x} = {i()}")
            out.append([f"if {r.choice(('True', 'False', '1 < 2', '3 < 2', 'None is None', 'None is not None', '0', '2', chr(39) + 'a' + chr(39) + ' == ' + chr(39) + 'a' + chr(39)))}:", [f"{x} += 2"]])
            if r.random() < 0.6:
                out.append(["else:", [f"{x} -= 3"]])
            return x
        if k == 2:
            out.append([f"match {r.choice(('3', '(1, 2)', 'None', repr('ab'), '2 + 1', 'True'))}:", [["case None:", [f"{x} = 1"]], ["case 'ab':", [f"{x} = 2"]], ["case (1, q):", [f"{x} = q"]],
                       ["case 3 | 4:", [f"{x} = {i()}"]], ["case _:", [f"{x} = 5"]]]])
            return x
        if k == 3:
            out.append(f"{x} = {n()}")
            out.append([r.choice(("while True:", "while 1:")), [f"{x} += 1", [f"if {x} > {r.randrange(6)}:", ["break"]]]])
            return x
        if k == 4:
            out.append(f"{x} = {n()}")
            out.append([f"while {r.choice(('False', '0'))}:", [f"{x} += 1"]])
            out.append(["else:", [f"{x} -= 2"]])
            return x
        if k == 5:
            # code after a statement that always leaves
            out.append(f"{x} = 0")
            out.append([f"for q in range({r.choice((1, 3))}):", [[f"if {i()} > {n()}:", [f"{x} += 1", "continue", f"{x} += 50"]], f"{x} += 2", *(["break", f"{x} += 9"] if r.random() < 0.5 else [])]])
            return x
        if k == 6:
            f = self.fresh("f")
            out.append([f"def {f}(a):", [[f"if {r.choice(('True', 'False', '2 > 1'))}:", ["return a * 2", "a = 3"]], ["else:", ["a = a + 4"]], "return a"]])
            return f"{f}({i()})"
        return f"(({i()}) if {r.choice(('True', 'False', 'None is not None', '1 == 1'))} else {i()}) + ({n()} < {n()} < {i()}) * 2 + ({i()} < 3 < {n()})"

    def lang_loop(self, sc, out, i, n, seq):
        """Values defined on some paths only, and carried around loops."""
        r = self.r
        x, y, c = self.fresh("z"), self.fresh("z"), self.fresh("c")
        k = r.randrange(5)
        if k == 0:
            out += [f"{x} = {n()}", f"{y} = {n()}", f"{c} = 0", [f"while {c} < {r.choice((1, 2, 5))}:", [f"{x}, {y} = {y}, {x} + {c}", f"{c} += 1"]]]
            return f"{x} * 2 - {y}"
        if k == 1:
            out += [[f"if {self.cond(sc, 1)}:", [f"{x} = {i()}"]], ["else:", [f"{x} = {i()}", f"{y} = {x}", f"{x} = {y} + 1"]]]
            return x
        if k == 2:
            out += [f"{x} = {i()}", [f"for {c} in ({i()}, {i()}, {n()}):", [[f"if {c} > {n()}:", [f"{x} = {c}", "break"]], f"{x} -= {c}"]], ["else:", [f"{x} = {x} + 40"]]]
            return x
        if k == 3:
            out += [f"{x} = {y} = {i()}", [f"for {c} in range({r.choice((2, 4))}):", [f"{x} += 1", [f"if {x} % 2 == 0:", ["continue"]], f"{y} = {x} - {y}"]]]
            return f"{y} + {x}"
        out += [f"{x} = 0", [f"for {c} in range(3):", [[f"for {y} in range({r.choice((2, 3))}):", [[f"if {y} == {r.randrange(3)}:", [r.choice(("break", "continue"))]], f"{x} += {y} * {c} + 1"]]]]]
        return x

    def lang_key(self, sc, out, i, n, seq):
        r = self.r
        p = seq()
        x = self.fresh("x")
        fn = r.choice(("max", "min"))
        key = r.choice((f"lambda {x}: -{x}", f"lambda {x}: {x} % 3", f"lambda {x}: abs({x} - 2)"))
        if r.random() < 0.4 or not p or p[1][0] != ARR:
            return r.choice((f"{fn}({', '.join(i() for _ in range(r.choice((2, 3))))}, key={key})", f"{fn}(({', '.join(i() for _ in range(3))}), key={key})"))
        return r.choice((f"{fn}({p[0]}, key={key})", f"{fn}(({x} for {x} in {p[0]}), key={key}, default=0)"))

    def st_maybe(self, sc, d, out):
        r = self.r
        hs = [h for h in self.lib.helpers if h[2] == "maybe" and (self.can_log or h[3])]
        if not hs:
            return False
        c = self.invoke(sc, r.choice(hs), 1)
        if c is None:
            return False
        v = self.fresh("y")
        out.append(f"{v} = {c}")
        w = self.fresh()
        k = r.randrange(4)
        if k == 0:
            out.append(f"{w} = {v}.or_default({r.randrange(9)}) % 29")
        elif k == 1:
            out.append(f"{w} = {v}.get_unsafe() % 29 if {v}.is_some else {r.randrange(9)}")
        elif k == 2:
            out.append(f"{w} = {v}.map(lambda z: z + {r.randrange(5)}).or_default({r.randrange(9)}) % 29")
        else:
            out.append(f"{w} = {v}.or_else(lambda: {r.randrange(50)}) % 29")
        sc.names[w] = "i"
        return True

    def st_gen(self, sc, d, out):
        gs = [h for h in self.lib.helpers if h[2] == "gen" and (self.can_log or h[3])]
        if not gs:
            return False
        c = self.invoke(sc, self.r.choice(gs), 1)
        if c is None:
            return False
        i = self.fresh("i")
        s = self.with_local(sc, i, "i")
        self.loop += 1
        body = self.block(s, self.r.choice((1, 2)), d - 1)
        self.loop -= 1
        out.append([f"for {i} in {c}:", body])
        return True

    def st_rand(self, sc, d, out):
        r = self.r
        v = self.fresh()
        k = r.randrange(4)
        if k == 0:
            out.append(f"{v} = random.randrange({r.randrange(1, 9)})")
        elif k == 1:
            a = r.randrange(-3, 4)
            out.append(f"{v} = random.randint({a}, {a + r.randrange(6)})")
        elif k == 2:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] == ARR and t[1] == "i", d=0)
            if not p:
                return False
            out.append(f"{v} = random.choice({p[0]})")
        else:
            out.append(f"{v} = int(random.random() * 8)")
        sc.names[v] = "i"
        return True

    def st_cont(self, sc, d, out):
        p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in ("var", "set", "map"), True, d=0)
        if not p:
            if self.r.random() < 0.5:
                t = self.r.choice((("var", "i", 3), ("var", "i", 5), ("set", "i", 3), ("map", "i", "i", 3)))
                v = self.fresh("k")
                out.append(f"{v} = {ann(t)}.new()")
                sc.names[v] = t
                return True
            return False
        tx, t = p
        self.cont_op(sc, tx, t, out)
        return True

    def cont_op(self, sc, tx, t, out, unsafe=0.0):
        """One operation on a container; guarded against its runtime check unless `unsafe`."""
        r = self.r
        e = lambda: self.value(sc, t[1], 1)  # noqa: E731
        guard = r.random() >= unsafe

        def g(cond, line):
            out.append([f"if {cond}:", [line]] if guard else line)
        v = self.fresh()
        if t[0] == "set":
            k = r.randrange(4)
            if k == 0:
                out.append(f"{v} = {tx}.add({e()}) + 0")
                sc.names[v] = "i"
            elif k == 1:
                out.append(f"{v} = {tx}.remove({e()}) + 0")
                sc.names[v] = "i"
            elif k == 2:
                out.append(f"{tx}.add({e()})")
            else:
                if r.random() < 0.2:
                    out.append(f"{tx}.clear()")
                else:
                    out.append(f"{v} = len({tx})")
                    sc.names[v] = "i"
            return
        if t[0] == "map":
            kv = self.fresh("k")
            out.append(f"{kv} = {self.value(sc, t[1], 1)}")
            k = r.randrange(6)
            if k < 3:
                g(f"{kv} in {tx} or not {tx}.is_full()", f"{tx}[{kv}] = {self.value(sc, t[2], 1)}")
            elif k == 3:
                g(f"{kv} in {tx}", r.choice((f"del {tx}[{kv}]", f"{tx}.pop({kv})")))
            elif k == 4 and t[2] == "i":
                out.append(f"{v} = 0")
                g(f"{kv} in {tx}", f"{v} = {tx}[{kv}]")
                sc.names[v] = "i"
            else:
                out.append(f"{v} = len({tx})")
                sc.names[v] = "i"
            return
        k = r.randrange(14)
        ix = self.leaf_i(sc)
        if k < 3:
            g(f"not {tx}.is_full()", f"{tx}.append({e()})")
        elif k == 3:
            w = self.fresh("x")
            out.append(f"{w} = {e()}")
            g(f"not {tx}.is_full()", f"{tx}.insert({ix} % (len({tx}) + 1), {w})")
        elif k == 4:
            g(f"len({tx}) > 0", f"{tx}.pop({ix} % len({tx}){' - len(' + tx + ')' if r.random() < 0.2 else ''})")
        elif k == 5:
            g(f"len({tx}) > 0", r.choice((f"{tx}.pop()", f"del {tx}[-1]", f"del {tx}[0]")))
        elif k == 6:
            out.append(f"{v} = {tx}.{r.choice(('remove', 'set_add', 'set_remove'))}({e()}) + 0")
            sc.names[v] = "i"
        elif k == 7:
            g(f"len({tx}) > 0", f"{tx}[{ix} % len({tx})] = {e()}")
        elif k == 8:
            out.append(f"{tx}.reverse()")
        elif k == 9 and t[1] == "i":
            out.append(f"{tx}.sort({r.choice(('', 'reverse=True', 'key=lambda z: -z', 'key=lambda z: z % 3'))})")
        elif k == 10:
            n = r.choice((1, 2))
            g(f"len({tx}) <= {tx}.capacity() - {n}", f"{tx}{r.choice(('.extend(', ' += ('))}{ann((ARR, t[1], n))}({', '.join(e() for _ in range(n))}))")
        elif k == 11:
            g(f"len({tx}) > 1", f"{tx}.swap({ix} % len({tx}), {r.choice((0, 1))})")
        elif k == 12 and r.random() < 0.3:
            out.append(f"{tx}.clear()")
        else:
            out.append(f"{v} = len({tx})")
            sc.names[v] = "i"

    def st_err(self, sc, d, out):
        """A condition that may fail at run time."""
        r = self.r
        self.ctr += 1
        msg = f"E{self.ctr}"
        k = r.randrange(10)
        # a condition the compiler can decide makes the rest of the function unreachable, which is not what is examined
        if self.helper_body and not self.cfg.get("opaque") or k == 7 and self.helper_body:
            return False
        rt = "rt" if self.cfg.get("opaque") else "0 + "
        c = f"({self.cond(sc, 1)}) + rt(0) != 0" if self.cfg.get("opaque") else self.cond(sc, 1)
        rare = f"{rt}({self.int_(sc, 1)}) % {r.choice((2, 3, 7))} != 0"
        if k == 0:
            out.append(f"assert {r.choice((c, rare))}, '{msg}'")
        elif k == 1:
            out.append(f"require({r.choice((c, rare))}, '{msg}')")
        elif k == 2:
            out.append([f"if not ({rare}):", [f"error('{msg}')"]])
        elif k == 3:
            out.append([f"if {c}:", [f"notify('{msg}')"]])
        elif k == 4:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] == ARR, d=0)
            if not p:
                return False
            tx, t = p
            if t[1] == "i":
                v = self.fresh()
                out.append(f"{v} = {tx}[{rt}({self.leaf_i(sc)})]" if r.random() < 0.7 else f"{v} = {tx}[{rt}({self.leaf_i(sc)}) % 4 - 1]")
                if rt != "rt" and out[-1].endswith("]") and self.const_index(out[-1]):
                    out.pop()
                    return False
                sc.names[v] = "i"
            else:
                return False
        elif k == 5:
            if self.in_fn is not None:
                return False
            out.append([f"if {c}:", ["terminate()"]])
        elif k == 6:
            p = self.place(sc, lambda t: t not in ("i", "f") and t[0] in ("var", "map"), True, d=0)
            if not p:
                return False
            self.cont_op(sc, p[0], p[1], out, unsafe=1.0)
        elif k == 9:
            # filled up to its capacity or beyond, and emptied again
            c, v, x = r.randrange(1, 5), self.fresh("q"), self.fresh()
            t, put, take = r.choice(((f"ArrayMap[int, int, {c}]", f"{v}[{x} * 3] = {x}", f"{v}.pop({x} * 3)"), (f"VarArray[int, {c}]", f"{v}.append({x})", f"{v}.pop()"),
                                     (f"VarArray[int, {c}]", f"{v}.insert(0, {x})", f"{v}.pop(0)"), (f"VarArray[int, {c}]", f"{v}.append({x})", f"del {v}[0]"),
                                     (f"ArrayMap[int, int, {c}]", f"{v}[{x}] = {x} * 2", f"del {v}[{x}]"), (f"VarArray[int, {c}]", f"{v}.extend(Array({x}, {x}))", f"{v}.pop()")))
            out.append(f"{v} = {t}.new()")
            out.append([f"for {x} in range({rt}({self.int_(sc, 1)}) % {c + 2}):", [put]])
            if r.random() < 0.5:
                out.append([f"for {x} in range({rt}({self.int_(sc, 1)}) % {c + 2}):", [take]])
            y = self.fresh()
            out.append(f"{y} = len({v})")
            sc.names[y] = "i"
        elif k == 8:
            n = r.choice((1, 3, 4))
            v = self.fresh()
            i = f"{rt}({self.int_(sc, 1)}) % {2 * n + 3} - {n + 1}" if r.random() < 0.8 else f"{rt}({self.int_(sc, 1)}) % 7 * 0.5 - 1"
            kw = r.choice(("", "", ", include_end=True", ", include_end=False", f", include_end={c}"))
            if r.random() < 0.5:
                out.append(f"{v} = get_positive_index({i}, {n}{kw})")
            else:
                out.append(f"{v} = check_positive_index({i}, {n}{kw})")
            sc.names[v] = "i"
        else:
            hs = [h for h in self.lib.helpers if h[2] == "maybe" and (self.can_log or h[3])]
            if not hs:
                return False
            cc = self.invoke(sc, r.choice(hs), 1)
            if cc is None:
                return False
            v = self.fresh()
            out.append(f"{v} = {cc}.get()")
            sc.names[v] = "i"
        return True

    @staticmethod
    def const_index(line):
        ix = line[line.rindex("[") + 1: -1]
        return not any(ch.isalpha() for ch in ix)

    # ---- declarations -------------------------------------------------------------------------------------------

    def record(self):
        r = self.r
        name = f"R{len(self.lib.recs)}"
        fs = []
        for k in range(r.choice((1, 2, 2, 3))):
            t = r.choice(("i", "i", "f"))
            if self.lib.recs and r.random() < 0.25:
                t = (REC, r.choice(list(self.lib.recs)))
            elif r.random() < 0.2:
                t = (ARR, "i", r.choice((1, 2, 3)))
            fs.append((f"{'abcd'[k]}", t))
        if not any(t == "i" for _, t in fs):
            fs.append(("z", "i"))
        self.lib.recs[name] = fs
        body = [f"{f}: {ann(t)}" for f, t in fs]
        ints = [f for f, t in fs if t == "i"]
        sc = Scope({"self": (REC, name), "k": "i"}, ro={"k"})
        save = self.in_fn, self.can_log, self.loop
        self.loop = 0
        self.can_log = False
        self.in_fn = None
        if r.random() < 0.7:
            body.append([f"def bump(self, k):", [f"self.{ints[0]} = (self.{ints[0]} + k) % 41", *self.block(sc, 1, 0), f"return self.{ints[0]}"]])
            self.lib.writes.add((f"{name}.bump", "self"))
            self.lib.helpers.append((f"{name}.bump", [("self", (REC, name)), ("k", "i")], "i", True))
        if r.random() < 0.5:
            body.append("@property")
            body.append(["def total(self):", [f"return {' + '.join(f'self.{f}' for f in ints)}"]])
            body.append(["def weigh(self, o):", ["return self.total * 2 - o.total"]])
            self.lib.helpers.append((f"{name}.weigh", [("self", (REC, name)), ("o", (REC, name))], "i", True))
        if r.random() < 0.5:
            body.append(["def __add__(self, o):", [f"return {name}({', '.join(f'(self.{f} + o.{f}) % 37' if t == 'i' else f'clamp(self.{f} + o.{f}, -9.0, 9.0)' if t == 'f' else f'o.{f}' for f, t in fs)})"]])
            self.addable = getattr(self, "addable", []) + [name]
        self.lib.ops[name] = ops = {}
        f0 = ints[0]
        if r.random() < 0.45:
            rest = [f for f, _ in fs if f != f0]
            mk = lambda e: f"{name}({', '.join([f'{f0}={e}'] + [f'{f}=self.{f}' for f in rest])})"  # noqa: E731
            pool = {
                "__mul__": ("self, k", f"return {mk(f'(self.{f0} * k) % 31')}"), "__rmul__": ("self, k", f"return {mk(f'(k * 2 - self.{f0}) % 31')}"),
                "__sub__": ("self, k", f"return {mk(f'(self.{f0} - k) % 31')}"), "__rsub__": ("self, k", f"return {mk(f'(k - self.{f0}) % 31')}"),
                "__neg__": ("self", f"return {mk(f'-self.{f0}')}"), "__invert__": ("self", f"return self.{f0} * 2 + 1"), "__getitem__": ("self, k", f"return self.{f0} * 3 + k"),
                "__contains__": ("self, k", f"return k > self.{f0}"), "__call__": ("self, k, j=2", f"return self.{f0} - k * j"), "__lt__": ("self, o", f"return self.{f0} % 5 < o.{f0} % 5"),
                "__iadd__": ("self, k", [f"self.{f0} = (self.{f0} + k) % 29", "return self"]), "__and__": ("self, k", f"return (self.{f0} + k) % 7"),
                "__rlshift__": ("self, k", f"return (self.{f0} - k) % 9"), "__setitem__": ("self, k, v", f"self.{f0} = (k * 2 + v) % 27"),
            }
            if r.random() < 0.5:
                pool["__bool__"] = ("self", f"return self.{f0} > 2")
            elif r.random() < 0.5:
                pool["__len__"] = ("self", f"return int(abs(self.{f0})) % 3")
            for m in r.sample(sorted(pool), r.choice((2, 4, 6))):
                ops[m] = 1
                b = pool[m][1]
                body.append([f"def {m}({pool[m][0]}):", b if isinstance(b, list) else [b]])
        if r.random() < 0.4:
            body.append("@classmethod")
            body.append(["def make(cls, x):", [f"return cls({', '.join(f'(x + {j}) % 19' if t == 'i' else '0.5' if t == 'f' else '+' + ann(t) for j, (f, t) in enumerate(fs))})"]])
        if r.random() < 0.3:
            body.append("@staticmethod")
            body.append(["def twice(x):", ["return x * 2 + 1"]])
            self.lib.helpers.append((f"{name}.twice", [("x", "i")], "i", True))
        self.in_fn, self.can_log, self.loop = save
        return [f"class {name}(Record):", body]

    def helper(self, kind):
        r = self.r
        f = self.fresh("h")
        ps = []
        for _ in range(r.choice((0, 1, 1, 2))):
            t = r.choice(("i", "i", "f"))
            if self.lib.recs and r.random() < 0.35:
                t = (REC, r.choice(list(self.lib.recs)))
            ps.append((self.fresh("p"), t))
        if not ps:
            ps = [(self.fresh("p"), "i")]
        sc = Scope(dict(ps), ro={n for n, t in ps if r.random() < 0.5})
        self.lib.writes |= {(f, n) for n, t in ps if t not in ("i", "f") and n not in sc.ro}
        save = self.in_fn, self.loop, self.budget, self.can_log
        self.loop = 0
        self.budget = 7
        self.can_log = self.cfg["log"] > r.random() * 2
        self.in_fn = kind if kind in ("i", "f") else None
        self.helper_body = True
        body = self.block(sc, r.choice((1, 2, 3)), 2, own=True)
        self.helper_body = False
        pure = not self.can_log
        if kind in ("i", "f"):
            body.append(f"return {self.bound(self.num(sc, kind, 2), kind)}")
        elif kind == "maybe":
            body.append([f"if {self.cond(sc, 1)}:", [f"return Some({self.bound(self.int_(sc, 1), 'i')})"]])
            body.append("return Nothing")
        elif kind == "gen":
            i = self.fresh("i")
            body.append(f"yield {self.int_(sc, 1)}")
            body.append([f"for {i} in range({r.choice((1, 2, 3))}):", [[f"if {self.cond(self.with_local(sc, i, 'i'), 1)}:", [f"yield {self.int_(self.with_local(sc, i, 'i'), 1)}"]]]])
            if r.random() < 0.3:
                body.append(f"yield from ({self.leaf_i(sc)}, {self.leaf_i(sc)})" if r.random() < 0.3 else f"yield from range({r.choice((1, 3))})")
        self.in_fn, self.loop, self.budget, self.can_log = save
        self.lib.helpers.append((f, ps, kind, pure))
        return [f"def {f}({', '.join(n for n, _ in ps)}):", body]


def free_names(tree, known):
    """Names a function or module body loads that nothing can define: such a program is not a case."""
    bad = set()
    mod = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    mod |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            a = fn.args
            mod |= {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if isinstance(fn, (ast.MatchAs, ast.MatchStar)) and fn.name:
            mod.add(fn.name)
        if isinstance(fn, ast.ClassDef):
            for tp in fn.type_params:
                mod.add(tp.name)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in mod and n.id not in known and not hasattr(builtins, n.id):
            bad.add(n.id)
    return bad


def node_shrinks(nodes):
    """Programs with one node removed, or a block replaced by its body."""
    for i, n in enumerate(nodes):
        yield nodes[:i] + nodes[i + 1:]
    for i, n in enumerate(nodes):
        if not isinstance(n, str):
            if not n[0].startswith(("class", "def", "case", "else", "elif", "match", "@")):
                yield nodes[:i] + list(n[1]) + nodes[i + 1:]
            for b in node_shrinks(n[1]):
                yield nodes[:i] + [[n[0], b]] + nodes[i + 1:]


def parse(src):
    try:
        return ast.parse(src)
    except SyntaxError:
        return ast.parse("undefined_name_")


# ---- reduction ---------------------------------------------------------------------------------------------------


def reduce_nodes(nodes, test, over):
    """Hierarchical delta debugging: chunks of statements first, then blocks, then their insides, then expressions."""
    best = nodes

    def at(tree, path):
        for k in path:
            tree = tree[k]
        return tree

    def replaced(tree, path, new):
        if not path:
            return new
        out = list(tree)
        out[path[0]] = replaced(tree[path[0]], path[1:], new)
        return out

    def visit(path):
        """Reduces the list of statements at `path`."""
        nonlocal best
        n = max(1, len(at(best, path)) // 2)
        while n >= 1 and not over():
            k = 0
            while k < len(at(best, path)) and not over():
                cur = at(best, path)
                cand = replaced(best, path, cur[:k] + cur[k + n:])
                if test(cand):
                    best = cand
                else:
                    k += n
            n //= 2
        k = 0
        while k < len(at(best, path)) and not over():
            cur = at(best, path)
            s = cur[k]
            if not isinstance(s, str):
                if not s[0].startswith(("class", "def", "case", "else", "elif", "match", "@")):
                    cand = replaced(best, path, cur[:k] + list(s[1]) + cur[k + 1:])
                    if test(cand):
                        best = cand
                        continue
                visit([*path, k, 1])
            k += 1

    def lines(tree, path=()):
        for k, s in enumerate(tree):
            if isinstance(s, str):
                yield (*path, k)
            else:
                yield (*path, k, 0)
                yield from lines(s[1], (*path, k, 1))

    def simplify():
        nonlocal best
        hit = False
        for path in list(lines(best)):
            again = True
            while again and not over():
                again = False
                for cand in line_shrinks(at(best, path)):
                    c = replaced(best, list(path), cand)
                    if test(c):
                        best = c
                        again = hit = True
                        break
                    if over():
                        break
        return hit

    while not over():
        before = text(best)
        visit([])
        simplify()
        if text(best) == before:
            break
    return best


def line_shrinks(line):
    """Simpler forms of one line: an expression replaced by one of its operands, or by a constant."""
    src = line
    tail = ""
    if line.endswith(":"):
        src, tail = line + " pass", " pass"
        if line.startswith(("elif", "case", "else", "class", "def", "match")):
            if not line.startswith("elif"):
                return
            src, tail = line[2:] + " pass", "e"
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return
    seen = {line}
    spots = []

    class Find(ast.NodeVisitor):
        def generic_visit(self, node):
            for f, v in ast.iter_fields(node):
                if f in ("targets", "target", "decorator_list", "args") and isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.FunctionDef)):
                    continue
                if isinstance(v, ast.expr):
                    spots.append((node, f, None))
                    self.visit(v)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if isinstance(x, ast.expr):
                            spots.append((node, f, k))
                        if isinstance(x, ast.AST):
                            self.visit(x)
                elif isinstance(v, ast.AST):
                    self.visit(v)

    Find().visit(tree)
    for node, f, k in spots:
        cur = getattr(node, f) if k is None else getattr(node, f)[k]
        if isinstance(node, ast.Expr) or isinstance(cur, (ast.Constant,)):
            continue
        subs = [c for c in ast.iter_child_nodes(cur) if isinstance(c, ast.expr)]
        if not isinstance(cur, ast.Name):
            subs.append(ast.Constant(1))
        for sub in subs:
            if k is None:
                setattr(node, f, sub)
            else:
                getattr(node, f)[k] = sub
            try:
                new = ast.unparse(tree)
            except Exception:  # noqa: BLE001
                new = None
            if k is None:
                setattr(node, f, cur)
            else:
                getattr(node, f)[k] = cur
            if new is None:
                continue
            if tail:
                new = new.rsplit("\n", 1)[0]
                if tail == "e":
                    new = "el" + new
            if new not in seen and "\n" not in new:
                seen.add(new)
                yield new
