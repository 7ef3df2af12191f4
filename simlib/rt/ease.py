"""Easing curves of the engine (transcribed from its documentation)."""

import math

EASE = {}


def _ease(name):
    def register(fn):
        EASE[name] = lambda x: float(fn(x)) if x == x else x
        return fn

    return register


@_ease("EaseInBack")
def _ease_in_back(x: float) -> float:
    x = max(0, min(1, x))
    c1 = 1.70158
    c3 = c1 + 1
    return c3 * x**3 - c1 * x**2


@_ease("EaseOutBack")
def _ease_out_back(x: float) -> float:
    x = max(0, min(1, x))
    c1 = 1.70158
    c3 = c1 + 1
    return 1 + c3 * (x - 1) ** 3 + c1 * (x - 1) ** 2


@_ease("EaseInOutBack")
def _ease_in_out_back(x: float) -> float:
    x = max(0, min(1, x))
    c1 = 1.70158
    c2 = c1 * 1.525
    if x < 0.5:
        return ((2 * x) ** 2 * ((c2 + 1) * 2 * x - c2)) / 2
    else:
        return ((2 * x - 2) ** 2 * ((c2 + 1) * (2 * x - 2) + c2) + 2) / 2


@_ease("EaseOutInBack")
def _ease_out_in_back(x: float) -> float:
    x = max(0, min(1, x))
    c1 = 1.70158
    c3 = c1 + 1
    if x < 0.5:
        return (1 + c3 * (2 * x - 1) ** 3 + c1 * (2 * x - 1) ** 2) / 2
    else:
        return (c3 * (2 * x - 1) ** 3 - c1 * (2 * x - 1) ** 2) / 2 + 0.5


@_ease("EaseInCirc")
def _ease_in_circ(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - math.sqrt(1 - x**2)


@_ease("EaseOutCirc")
def _ease_out_circ(x: float) -> float:
    x = max(0, min(1, x))
    return math.sqrt(1 - (x - 1) ** 2)


@_ease("EaseInOutCirc")
def _ease_in_out_circ(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return (1 - math.sqrt(1 - (2 * x) ** 2)) / 2
    else:
        return (math.sqrt(1 - (2 * x - 2) ** 2) + 1) / 2


@_ease("EaseOutInCirc")
def _ease_out_in_circ(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return math.sqrt(1 - (2 * x - 1) ** 2) / 2
    else:
        return (1 - math.sqrt(1 - (2 * x - 1) ** 2)) / 2 + 0.5


@_ease("EaseInCubic")
def _ease_in_cubic(x: float) -> float:
    x = max(0, min(1, x))
    return x**3


@_ease("EaseOutCubic")
def _ease_out_cubic(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - (1 - x) ** 3


@_ease("EaseInOutCubic")
def _ease_in_out_cubic(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return 4 * x**3
    else:
        return 1 - (-2 * x + 2) ** 3 / 2


@_ease("EaseOutInCubic")
def _ease_out_in_cubic(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return (1 - (1 - 2 * x) ** 3) / 2
    else:
        return ((2 * x - 1) ** 3) / 2 + 0.5


@_ease("EaseInElastic")
def _ease_in_elastic(x: float) -> float:
    x = max(0, min(1, x))
    c4 = (2 * math.pi) / 3
    if x in {0, 1}:
        return x
    else:
        return -(2 ** (10 * x - 10)) * math.sin((x * 10 - 10.75) * c4)


@_ease("EaseOutElastic")
def _ease_out_elastic(x: float) -> float:
    x = max(0, min(1, x))
    c4 = (2 * math.pi) / 3
    if x in {0, 1}:
        return x
    else:
        return 2 ** (-10 * x) * math.sin((x * 10 - 0.75) * c4) + 1


@_ease("EaseInOutElastic")
def _ease_in_out_elastic(x: float) -> float:
    x = max(0, min(1, x))
    c5 = (2 * math.pi) / 4.5
    if x in {0, 1}:
        return x
    elif x < 0.5:
        return -(2 ** (20 * x - 10) * math.sin((20 * x - 11.125) * c5)) / 2
    else:
        return (2 ** (-20 * x + 10) * math.sin((20 * x - 11.125) * c5)) / 2 + 1


@_ease("EaseOutInElastic")
def _ease_out_in_elastic(x: float) -> float:
    x = max(0, min(1, x))
    c4 = (2 * math.pi) / 3
    if x < 0.5:
        if x == 0:
            return 0
        else:
            return (2 ** (-20 * x) * math.sin((20 * x - 0.75) * c4)) / 2 + 0.5
    elif x == 1:
        return 1
    else:
        return (-(2 ** (10 * (2 * x - 1) - 10)) * math.sin((20 * x - 20.75) * c4)) / 2 + 0.5


@_ease("EaseInExpo")
def _ease_in_expo(x: float) -> float:
    x = max(0, min(1, x))
    return 0 if x == 0 else 2 ** (10 * x - 10)


@_ease("EaseOutExpo")
def _ease_out_expo(x: float) -> float:
    x = max(0, min(1, x))
    return 1 if x == 1 else 1 - 2 ** (-10 * x)


@_ease("EaseInOutExpo")
def _ease_in_out_expo(x: float) -> float:
    x = max(0, min(1, x))
    if x in {0, 1}:
        return x
    elif x < 0.5:
        return 2 ** (20 * x - 10) / 2
    else:
        return (2 - 2 ** (-20 * x + 10)) / 2


@_ease("EaseOutInExpo")
def _ease_out_in_expo(x: float) -> float:
    x = max(0, min(1, x))
    if x in {0, 1}:
        return x
    elif x < 0.5:
        return (1 - 2 ** (-20 * x)) / 2
    else:
        return (2 ** (20 * x - 20)) / 2 + 0.5


@_ease("EaseInQuad")
def _ease_in_quad(x: float) -> float:
    x = max(0, min(1, x))
    return x**2


@_ease("EaseOutQuad")
def _ease_out_quad(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - (1 - x) ** 2


@_ease("EaseInOutQuad")
def _ease_in_out_quad(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return 2 * x**2
    else:
        return 1 - (-2 * x + 2) ** 2 / 2


@_ease("EaseOutInQuad")
def _ease_out_in_quad(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return (1 - (1 - 2 * x) ** 2) / 2
    else:
        return ((2 * x - 1) ** 2) / 2 + 0.5


@_ease("EaseInQuart")
def _ease_in_quart(x: float) -> float:
    x = max(0, min(1, x))
    return x**4


@_ease("EaseOutQuart")
def _ease_out_quart(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - (1 - x) ** 4


@_ease("EaseInOutQuart")
def _ease_in_out_quart(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return 8 * x**4
    else:
        return 1 - (-2 * x + 2) ** 4 / 2


@_ease("EaseOutInQuart")
def _ease_out_in_quart(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return (1 - (1 - 2 * x) ** 4) / 2
    else:
        return ((2 * x - 1) ** 4) / 2 + 0.5


@_ease("EaseInQuint")
def _ease_in_quint(x: float) -> float:
    x = max(0, min(1, x))
    return x**5


@_ease("EaseOutQuint")
def _ease_out_quint(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - (1 - x) ** 5


@_ease("EaseInOutQuint")
def _ease_in_out_quint(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return 16 * x**5
    else:
        return 1 - (-2 * x + 2) ** 5 / 2


@_ease("EaseOutInQuint")
def _ease_out_in_quint(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return (1 - (1 - 2 * x) ** 5) / 2
    else:
        return ((2 * x - 1) ** 5) / 2 + 0.5


@_ease("EaseInSine")
def _ease_in_sine(x: float) -> float:
    x = max(0, min(1, x))
    return 1 - math.cos((x * math.pi) / 2)


@_ease("EaseOutSine")
def _ease_out_sine(x: float) -> float:
    x = max(0, min(1, x))
    return math.sin((x * math.pi) / 2)


@_ease("EaseInOutSine")
def _ease_in_out_sine(x: float) -> float:
    x = max(0, min(1, x))
    return -(math.cos(math.pi * x) - 1) / 2


@_ease("EaseOutInSine")
def _ease_out_in_sine(x: float) -> float:
    x = max(0, min(1, x))
    if x < 0.5:
        return math.sin(math.pi * x) / 2
    else:
        return 1 - math.sin(math.pi * x) / 2
