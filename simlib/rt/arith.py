"""Total arithmetic of the simulated engine: every operation yields a double for every operand.

Written from the engine's documented node semantics; it is used by the machine that runs packaged nodes and
by the reference interpreter of unoptimised control flow graphs, so neither depends on the project's own
interpreter or on its constant folder.
"""

from __future__ import annotations

import math

from .ease import EASE  # noqa: F401

NAN, INF = math.nan, math.inf


def div(a, b):
    if b != 0:
        return a / b
    if a == 0 or a != a or b != b:
        return NAN
    neg = (math.copysign(1.0, a) < 0) != (math.copysign(1.0, b) < 0)
    return -INF if neg else INF


def mod(a, b):
    if b == 0 or a != a or b != b or a in (INF, -INF):
        return NAN
    return a % b


def rem(a, b):
    if b == 0 or a != a or b != b or a in (INF, -INF):
        return NAN
    return math.copysign(abs(a) % abs(b), a)


def power(a, b):
    try:
        r = float(a) ** float(b)
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF
    return r if isinstance(r, float) else NAN


def _whole(f):
    def g(a):
        if a != a or a in (INF, -INF):
            return a
        return float(f(a))

    return g


floor, ceil, trunc, rnd = _whole(math.floor), _whole(math.ceil), _whole(math.trunc), _whole(round)


def _safe(f):
    def g(*a):
        try:
            return float(f(*a))
        except (ValueError, ZeroDivisionError):
            return NAN
        except OverflowError:
            return INF

    return g


def frac(a):
    if a != a or a in (INF, -INF):
        return NAN
    r = a % 1
    return r if r >= 0 else r + 1


def sign(a):
    return 1.0 if a > 0 else -1.0 if a < 0 else a


def mn(a, b):
    if a != a or b != b:
        return NAN
    return b if b < a else a


def mx(a, b):
    if a != a or b != b:
        return NAN
    return b if b > a else a


def log(a):
    if a == 0:
        return -INF
    return math.log(a) if a > 0 else NAN


def judge(d, pmin, pmax, gmin, gmax, omin, omax):
    if pmin <= d <= pmax:
        return 1.0
    if gmin <= d <= gmax:
        return 2.0
    if omin <= d <= omax:
        return 3.0
    return 0.0


def c01(x):
    return mx(0.0, mn(1.0, x))


UNARY = {
    "Abs": abs, "Negate": lambda a: -a, "Floor": floor, "Ceil": ceil, "Trunc": trunc, "Round": rnd, "Frac": frac, "Sign": sign,
    "Sin": _safe(math.sin), "Cos": _safe(math.cos), "Tan": _safe(math.tan), "Sinh": _safe(math.sinh), "Cosh": _safe(math.cosh),
    "Tanh": _safe(math.tanh), "Arcsin": _safe(math.asin), "Arccos": _safe(math.acos), "Arctan": _safe(math.atan), "Log": log,
    "Degree": _safe(math.degrees), "Radian": _safe(math.radians), "Not": lambda a: 1.0 if a == 0 else 0.0,
}
BINARY = {
    "Equal": lambda a, b: 1.0 if a == b else 0.0, "NotEqual": lambda a, b: 1.0 if a != b else 0.0,
    "Less": lambda a, b: 1.0 if a < b else 0.0, "LessOr": lambda a, b: 1.0 if a <= b else 0.0,
    "Greater": lambda a, b: 1.0 if a > b else 0.0, "GreaterOr": lambda a, b: 1.0 if a >= b else 0.0,
    "Min": mn, "Max": mx, "Arctan2": _safe(math.atan2),
}
FOLD = {  # reduce over any number of arguments
    "Add": lambda a, b: a + b, "Subtract": lambda a, b: a - b, "Multiply": lambda a, b: a * b, "Divide": div, "Mod": mod, "Rem": rem, "Power": power,
}
NARY = {
    "Clamp": lambda x, a, b: mx(a, mn(b, x)),
    "Lerp": lambda x, y, s: x + (y - x) * s,
    "LerpClamped": lambda x, y, s: x + (y - x) * c01(s),
    "Unlerp": lambda lo, hi, v: div(v - lo, hi - lo),
    "UnlerpClamped": lambda lo, hi, v: c01(div(v - lo, hi - lo)),
    "Remap": lambda a, b, c, d, v: c + div((d - c) * (v - a), b - a),
    "RemapClamped": lambda a, b, c, d, v: c + (d - c) * c01(div(v - a, b - a)),
    "Judge": lambda s, t, a, b, c, d, e, f: judge(s - t, a, b, c, d, e, f),
    "JudgeSimple": lambda s, t, a, b, c: judge(s - t, -a, a, -b, b, -c, c),
}
