"""The scheduler: real threads, exactly one of which runs at any time; the seeded chooser decides which.

A thread gives up control only inside `point` (it could go on) or `block` (it waits for a condition, with an
optional deadline in virtual time).  When nothing can run, virtual time jumps to the next deadline.
"""

from __future__ import annotations

import _thread
import hashlib
import os
import random
import sys

raw_allocate = _thread.allocate_lock
raw_start = _thread.start_new_thread
raw_ident = _thread.get_ident

S: "Sched | None" = None  # the active scheduler of this process


class Stuck(Exception):
    pass


class Task:
    __slots__ = ("id", "name", "sem", "done", "pred", "deadline", "system", "daemon", "inject", "error", "timed_out", "prio")

    def __init__(self, tid, name, system, daemon):
        self.id, self.name, self.system, self.daemon = tid, name, system, daemon
        self.sem = raw_allocate()
        self.sem.acquire()
        self.done = False
        self.pred = None
        self.deadline = None
        self.inject = None  # exception to raise at the next point (Ctrl-C)
        self.error = None
        self.timed_out = False
        self.prio = 0.0


class Sched:
    def __init__(self, knobs: dict):
        self.knobs = knobs
        self.mode = knobs.get("mode", "rand")
        self.p = knobs.get("p", 0.3)
        self.rng = random.Random(knobs.get("seed", 0))
        self.explicit = {int(k): v for k, v in (knobs.get("switch") or {}).items()}
        self.recorded: dict[int, str] = {}
        self.tasks: list[Task] = []
        self.by_ident: dict[int, Task] = {}
        self.cur: Task | None = None
        self.now = knobs.get("t0", 1_700_000_000.0)
        self.mono = 1000.0
        self.steps = 0
        self.max_steps = knobs.get("max_steps", 60_000)
        self.log: list = []
        self.h = hashlib.sha256()
        self.stats: dict[str, int] = {}
        self.finished = None
        self.main_sem = raw_allocate()
        self.main_sem.acquire()
        self.edges: set = set()
        self.last_tag: dict[int, str] = {}
        self.pct_points = set()
        if self.mode == "pct":
            self.pct_points = {self.rng.randrange(1, 3000) for _ in range(knobs.get("d", 3))}

    # ------------------------------------------------------------------ utilities
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def event(self, *parts):
        self.h.update(repr(parts).encode())
        if len(self.log) < 4000:
            self.log.append((self.steps, self.cur.name if self.cur else "-", *parts))

    def in_task(self):
        t = self.by_ident.get(raw_ident())
        return t is not None and t is self.cur

    def tick(self, dt=0.0007):
        self.now += dt
        self.mono += dt

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, name, system=False, daemon=True, thread_obj=None):
        t = Task(len(self.tasks), name, system, daemon)
        t.prio = self.rng.random() if self.mode == "pct" else 0.0
        self.tasks.append(t)

        def boot():
            self.by_ident[raw_ident()] = t
            t.sem.acquire()
            try:
                fn()
            except SystemExit as e:
                t.error = e
            except BaseException as e:  # noqa: BLE001
                t.error = e
                self.event("task-died", t.name, type(e).__name__)
                if t.system:
                    self.on_thread_exception(t, e)
                else:
                    import traceback

                    self.finish({"harness_error": traceback.format_exc()})
            t.done = True
            self.event("done", t.name)
            self._handoff(t)

        raw_start(boot, ())
        return t

    def on_thread_exception(self, t, e):
        import traceback

        out = "".join(traceback.format_exception(e))
        w = getattr(self, "stderr_text", None)
        if w is not None:
            w.append(out)

    def ready(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or t.inject is not None:
                out.append(t)
            elif t.pred():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.mono:
                out.append(t)
        return out

    def _choose(self, ready, cur_ok):
        """Default: stay with the current task; else the lowest id."""
        default = self.cur if cur_ok else ready[0]
        if len(ready) == 1:
            return ready[0]
        st = self.steps
        if self.mode == "explicit":
            name = self.explicit.get(st)
            pick = default
            if name is not None:
                for t in ready:
                    if t.name == name:
                        pick = t
        elif self.mode == "pct":
            if st in self.pct_points and self.cur is not None:
                self.cur.prio = -self.rng.random()
            pick = max(ready, key=lambda t: (t.prio, -t.id))
        else:
            pick = default
            if not cur_ok or self.rng.random() < self.p:
                pick = ready[self.rng.randrange(len(ready))]
        if pick is not default:
            self.recorded[st] = pick.name
            if cur_ok:
                self.count("preemptions")
        return pick

    def _switch(self, me, to):
        if to is me:
            return
        self.count("context_switches")
        self.cur = to
        to.sem.release()
        me.sem.acquire()

    def _pick_next(self, cur_ok):
        while True:
            r = self.ready()
            if r:
                return self._choose(r, cur_ok and any(t is self.cur for t in r))
            dl = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if not dl:
                return None
            step = min(dl) - self.mono
            if step > 0:
                self.mono += step
                self.now += step
                self.count("clock_advances")

    def _handoff(self, me):
        if self.finished is not None:
            return
        nxt = self._pick_next(False)
        if nxt is None:
            self.finish({"deadlock": [t.name for t in self.tasks if not t.done]})
            return
        self.cur = nxt
        nxt.sem.release()

    def _bump(self, tag):
        self.steps += 1
        self.tick()
        if self.steps > self.max_steps:
            self.finish({"stuck": True, "where": [(t.name, bool(t.pred)) for t in self.tasks if not t.done]})
        me = self.cur
        prev = self.last_tag.get(-1)
        key = (me.name.split("#")[0], tag)
        if prev is not None and prev != key and prev[0] != key[0]:
            self.edges.add(prev + key)
        self.last_tag[-1] = key

    def point(self, tag=""):
        me = self.cur
        self._bump(tag)
        nxt = self._pick_next(True)
        self._switch(me, nxt)
        if me.inject is not None:
            e, me.inject = me.inject, None
            raise e

    def block(self, pred, timeout=None, tag="block"):
        """Waits until pred() or the timeout; returns whether pred held."""
        me = self.cur
        self._bump(tag)
        me.pred = pred
        me.deadline = None if timeout is None else self.mono + max(0.0, timeout)
        nxt = self._pick_next(True)
        if nxt is None:
            self.finish({"deadlock": [t.name for t in self.tasks if not t.done]})
        self._switch(me, nxt)
        me.pred = None
        me.deadline = None
        if me.inject is not None:
            e, me.inject = me.inject, None
            raise e
        return bool(pred())

    def sleep(self, dt):
        end = self.mono + dt
        self.block(lambda: self.mono >= end, dt, "sleep")

    # ------------------------------------------------------------------ run
    def finish(self, result):
        """Ends the simulated process from whichever task runs; never returns to a task."""
        if self.finished is None:
            self.finished = result
            self.main_sem.release()
        if raw_ident() in self.by_ident:
            raw_allocate_forever()

    def run(self):
        """Called by the process's first thread once the initial tasks are spawned."""
        self.cur = self.tasks[0]
        self.tasks[0].sem.release()
        self.main_sem.acquire()
        return self.finished


def raw_allocate_forever():
    lk = raw_allocate()
    lk.acquire()
    lk.acquire()  # parked for good; the process is about to _exit


def activate(s: Sched):
    global S
    S = s
