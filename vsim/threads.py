"""Threads of one process under a seeded scheduler: one runs at a time, and may be preempted
before any line of mssm that it executes (the points at which Python may switch threads).

All threads share the process: its modules, random number generators and objects.
"""

import sys
import threading

from . import core


class Threads:
    def __init__(self, w, mean, limit=4000):
        self.w = w
        self.mean = max(1, int(mean))
        self.limit = limit  # preemptions, so that long runs end
        self.sem = []
        self.alive = []
        self.out = []
        self.cur = None
        self.left = 0
        self.preempt = 0
        self.lines = 0
        self.done = threading.Semaphore(0)

    def _next_slice(self):
        # 1 .. about twice the mean, in a few sizes so that a recorded schedule stays small
        k = self.w.dec.choose(6) if self.preempt < self.limit else 5
        self.left = [self.mean, 1, 3, self.mean // 2 + 1, 2 * self.mean, 8 * self.mean][k]
        if self.preempt >= self.limit:
            self.left = 10**12

    def _pick(self, me):
        c = [i for i in range(len(self.alive)) if self.alive[i]]
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        # 0 keeps the running thread
        order = [me] + [i for i in c if i != me] if me in c else c
        return order[self.w.dec.choose(len(order))]

    def _switch(self, me):
        self._next_slice()
        j = self._pick(me)
        if j == me:
            return
        self.preempt += 1
        self.w.counts["preempt"] = self.w.counts.get("preempt", 0) + 1
        self.w.note("thread", str(j))
        self.cur = j
        self.sem[j].release()
        self.sem[me].acquire()

    def _run(self, me, fn):
        self.sem[me].acquire()

        def line(frame, event, arg):
            if event == "line":
                self.lines += 1
                self.left -= 1
                if self.left <= 0:
                    self._switch(me)
            return line

        def call(frame, event, arg):
            return line if frame.f_globals.get("__name__", "").startswith("mssm") else None

        sys.settrace(call)
        try:
            self.out[me] = ("ok", fn())
        except BaseException as e:
            self.out[me] = ("exc", e)
        finally:
            sys.settrace(None)
            self.alive[me] = False
            j = self._pick(me)
            if j is None:
                self.done.release()
            else:
                self.cur = j
                self.w.note("thread", str(j))
                self._next_slice()
                self.sem[j].release()

    def run(self, fns):
        ts = []
        for i, fn in enumerate(fns):
            self.sem.append(threading.Semaphore(0))
            self.alive.append(True)
            self.out.append(None)
            ts.append(threading.Thread(target=self._run, args=(i, fn), daemon=True))
        for t in ts:
            t.start()
        self._next_slice()
        j = self._pick(-1)
        self.cur = j
        self.sem[j].release()
        self.done.acquire()
        for t in ts:
            t.join()
        self.w.counts["line"] = self.w.counts.get("line", 0) + self.lines
        for st, v in self.out:
            if st == "exc" and isinstance(v, core.Violation):
                raise v
        return self.out
