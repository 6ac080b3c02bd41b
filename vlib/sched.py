"""Deterministic interleaving of threads that run the code under test.

Only one thread runs at a time.  Each thread is traced; at events (function entry, line,
optionally every instruction) inside the code under test a seeded choice decides whether to
hand over to the next thread, so that a schedule is a pure function of its seed and the
code.  With 'fresh' = k only the first visit of each place counts, and the first switch
is at the k-th of them: what runs once gets as many switches as what runs in loops.  If the running thread makes no progress (it waits for something a suspended thread
holds), all threads are released and finish unscheduled: any schedule is a legal one.
"""
import os
import random
import sys
import threading
import time

from vlib import engine

STALL = 3.0


class Abandoned(BaseException):
    pass


class Scheduler:
    def __init__(self, jobs, seed, kind, p, limit, fresh=0):
        self.jobs = jobs
        self.rnd = random.Random(seed)
        self.kind, self.p, self.limit = kind, p, limit
        self.n = len(jobs)
        self.alive = [True] * self.n
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.out = [None] * self.n
        self.free = self.abort = False
        self.switches = self.events = 0
        self.prefix = os.path.realpath(engine.REPO) + os.sep
        self.known = {}
        self.fresh, self.seen = fresh, set()

    def ours(self, f):
        v = self.known.get(f)
        if v is None:
            v = self.known[f] = os.path.realpath(f).startswith(self.prefix)
        return v

    def wait(self, i):
        while not self.turn[i].acquire(timeout=STALL):
            if self.free:
                return
            seen = self.events
            time.sleep(0.2)
            if seen == self.events:
                self.free = True
                for s in self.turn:
                    s.release()
                return

    def hand_over(self, i):
        for k in range(1, self.n):
            j = (i + k) % self.n
            if self.alive[j]:
                self.turn[j].release()
                return True
        return False

    def event(self, i, frame):
        if self.abort:
            raise Abandoned()
        self.events += 1
        if self.fresh:
            at = (frame.f_code, frame.f_lasti)
            if at in self.seen:
                return
            self.seen.add(at)
            if len(self.seen) < self.fresh:
                return
        if self.free or self.switches >= self.limit:
            return
        if self.rnd.random() >= self.p and not (self.fresh and len(self.seen) == self.fresh):
            return
        if self.hand_over(i):
            self.switches += 1
            self.wait(i)

    def tracer(self, i):
        kind = self.kind

        def local(frame, what, arg):
            if self.switches >= self.limit and not self.abort:      # nothing left to decide
                frame.f_trace_opcodes = False
                return None
            if what == kind or (what == 'return' and kind == 'call'):
                self.event(i, frame)
            return local

        def enter(frame, what, arg):
            if self.switches >= self.limit or not self.ours(frame.f_code.co_filename):
                return None
            if kind == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            elif kind == 'call':
                frame.f_trace_lines = False
                self.event(i, frame)
            return local
        return enter

    def body(self, i):
        self.wait(i)
        try:
            sys.settrace(self.tracer(i))
            try:
                self.out[i] = ('ok', self.jobs[i]())
            finally:
                sys.settrace(None)
        except engine.Violation as e:
            self.out[i] = ('raised', str(e))
        except Abandoned:
            self.out[i] = ('raised', 'abandoned')
        except Exception as e:
            self.out[i] = ('raised', '%s: %s' % (type(e).__name__, e))
        finally:
            self.alive[i] = False
            self.hand_over(i)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.turn[0].release()
        try:
            for t in ts:
                t.join()
        except BaseException:
            self.abort = self.free = True
            for s in self.turn:
                s.release()
            raise
        return self.out
