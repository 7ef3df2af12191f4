"""Runs callbacks of several entities on engine threads, interleaved at single memory and host operations by a seeded schedule."""

from __future__ import annotations

import random
import threading


class Weave:
    """A schedule: which engine thread makes the next step.  Threads hand a baton to one another; exactly one runs at any time."""

    def __init__(self, seed, policy, private):
        self.r = random.Random(seed)
        self.policy = policy
        self.private = private  # block ids nobody else can see: operations on them are not points of interest
        self.switches = 0
        self.points = 0

    def run(self, jobs):
        """jobs: one list of functions per engine thread; each function takes the gate.  Returns their results, thread by thread."""
        n = len(jobs)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.alive = set(range(n))
        self.out = [[] for _ in range(n)]
        self.err = None
        self.stalled = self.r.randrange(n) if self.policy == "stall" else None
        ts = [threading.Thread(target=self._main, args=(k, jobs[k]), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.cur = self._pick()
        self.sem[self.cur].release()
        self.done.acquire()
        for t in ts:
            t.join()
        if self.err is not None:
            raise self.err
        return self.out

    def _pick(self):
        c = sorted(self.alive)
        if self.policy == "stall" and len(c) > 1 and self.stalled in c and self.r.random() < 0.97:
            c.remove(self.stalled)
        return c[self.r.randrange(len(c))]

    def _main(self, k, fns):
        self.sem[k].acquire()
        try:
            for f in fns:
                if self.err is not None:
                    break
                self.out[k].append(f(lambda kind, b, i: self._gate(k, kind, b)))
        except BaseException as e:  # noqa: BLE001
            self.err = self.err or e
        self.alive.discard(k)
        if self.alive:
            self.cur = self._pick()
            self.sem[self.cur].release()
        else:
            self.done.release()

    def _gate(self, k, kind, b):
        if b in self.private and kind != "h" or self.err is not None:
            return
        self.points += 1
        p = {"fine": 0.9, "mixed": 0.4, "coarse": 0.05, "stall": 0.3}[self.policy]
        if len(self.alive) == 1 or self.r.random() >= p:
            return
        to = self._pick()
        if to != k:
            self.switches += 1
            self.sem[to].release()
            self.sem[k].acquire()
