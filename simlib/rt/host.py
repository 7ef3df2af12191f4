"""The simulated engine host: answers host functions, keeps streams, records everything it is asked to do."""

from __future__ import annotations

import bisect
import random

from .machine import HOST_OPS, Fault

# answered without being recorded: the engine defines them as functions of their arguments (and of immutable data)
PURE = {"HasSkinSprite", "HasParticleEffect", "HasEffectClip", "BeatToBPM", "BeatToStartingBeat", "BeatToStartingTime", "BeatToTime",
        "TimeToScaledTime", "TimeToStartingScaledTime", "TimeToStartingTime", "TimeToTimeScale", "StreamHas", "StreamGetValue",
        "StreamGetNextKey", "StreamGetPreviousKey"}
ARGS = {"DebugLog": 1, "DebugPause": 0, "Random": 2, "RandomInteger": 2, "StreamSet": 3, "StreamHas": 2, "StreamGetValue": 2, "StreamGetNextKey": 2,
        "StreamGetPreviousKey": 2, "ExportValue": 2}
BOUND = 1.0 - 2.0 ** -30


class Draws:
    """The engine's random source: a scripted sequence of fractions in [0, 1], extremes included."""

    def __init__(self, seed, style="mixed"):
        self.r = random.Random(seed)
        self.style = style
        self.n = 0

    def next(self):
        self.n += 1
        r = self.r
        if self.style == "low":
            return 0.0
        if self.style == "high":
            return 1.0
        x = r.random()
        if self.style == "mixed":
            if x < 0.12:
                return 0.0
            if x < 0.24:
                return 1.0
            if x < 0.3:
                return BOUND
        return r.random()


class Streams:
    """Key/value streams of one play-through; readable (and then immutable) in watch mode."""

    def __init__(self):
        self.d = {}
        self._sorted = {}

    def set(self, i, k, v):
        if k != k or abs(k) == float("inf"):
            raise Fault("stream", f"stream {i}: key {k}")
        self.d.setdefault(i, {})[k] = v
        self._sorted.pop(i, None)

    def keys(self, i):
        s = self._sorted.get(i)
        if s is None:
            s = self._sorted[i] = sorted(self.d.get(i, ()))
        return s

    def has(self, i, k):
        return 1.0 if k in self.d.get(i, ()) else 0.0

    def next(self, i, k):
        ks = self.keys(i)
        j = bisect.bisect_right(ks, k)
        return ks[j] if j < len(ks) else k

    def prev(self, i, k):
        ks = self.keys(i)
        j = bisect.bisect_left(ks, k)
        return ks[j - 1] if j else k

    def value(self, i, k):
        ks = self.keys(i)
        if not ks:
            return 0.0
        d = self.d[i]
        if k in d:
            return d[k]
        j = bisect.bisect_right(ks, k)
        if j == 0:
            return d[ks[0]]
        if j == len(ks):
            return d[ks[-1]]
        a, b = ks[j - 1], ks[j]
        return d[a] + (d[b] - d[a]) * (k - a) / (b - a)


class Host:
    def __init__(self, draws=None, streams=None, bpms=((0.0, 60.0),), scales=((0.0, 1.0),), names=None):
        self.calls = []
        self.draws = draws or Draws(0)
        self.streams = streams if streams is not None else Streams()
        self.next_id = 1.0
        self.bpms = bpms
        self.scales = scales
        self.paused = 0

    def __call__(self, name, a):
        want = ARGS.get(name)
        if want is not None and len(a) != want:
            raise Fault("args", f"{name} called with {len(a)} arguments")
        if name in PURE:
            return self.pure(name, a)
        if name == "Random":
            u = self.draws.next()
            self.calls.append((name, tuple(a)))
            v = a[0] + (a[1] - a[0]) * u
            return max(min(a), min(max(a), v))
        if name == "RandomInteger":
            u = self.draws.next()
            self.calls.append((name, tuple(a)))
            lo, hi = a
            if lo != int(lo) or hi != int(hi) or hi <= lo:
                raise Fault("args", f"RandomInteger({lo}, {hi})")
            return float(min(lo + int(u * (hi - lo)), int(hi) - 1))
        self.calls.append((name, tuple(a)))
        if name in ("SpawnParticleEffect", "PlayLooped", "PlayLoopedScheduled"):
            self.next_id += 1
            return self.next_id
        if name == "StreamSet":
            self.streams.set(a[0], a[1], a[2])
        if name == "DebugPause":
            self.paused += 1
        if name not in HOST_OPS:
            raise Fault("op", f"unknown host function {name}")
        return 0.0

    def pure(self, name, a):
        if name.startswith("Has"):
            x = a[0]
            return 1.0 if x == x and abs(x) < 1e15 and x == int(x) and int(x) % 3 != 1 else 0.0
        if name == "StreamHas":
            return self.streams.has(*a)
        if name == "StreamGetValue":
            return self.streams.value(*a)
        if name == "StreamGetNextKey":
            return self.streams.next(*a)
        if name == "StreamGetPreviousKey":
            return self.streams.prev(*a)
        x = a[0]
        if name.startswith("Beat"):
            t, b0, bpm = 0.0, self.bpms[0][0], self.bpms[0][1]
            for b, q in self.bpms[1:]:
                if x < b:
                    break
                t += (b - b0) * 60.0 / bpm
                b0, bpm = b, q
            return {"BeatToBPM": bpm, "BeatToStartingBeat": b0, "BeatToStartingTime": t, "BeatToTime": t + (x - b0) * 60.0 / bpm}[name]
        s, t0, k = 0.0, self.scales[0][0], self.scales[0][1]
        for b, q in self.scales[1:]:
            if x < b:
                break
            s += (b - t0) * k
            t0, k = b, q
        return {"TimeToScaledTime": s + (x - t0) * k, "TimeToStartingScaledTime": s, "TimeToStartingTime": t0, "TimeToTimeScale": k}[name]
