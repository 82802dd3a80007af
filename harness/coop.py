"""Run functions in real threads, one at a time, switching at chosen line (or bytecode) events of chosen files."""
import sys
import threading
import time

STALL = 0.4
TOTAL = 60


class Coop:
    def __init__(self, files, opcodes=False):
        self.files, self.opcodes = files, opcodes

    def run(self, funcs, schedule):
        """schedule: list of (thread index, number of events to let it run; None: to its end).
        -> (per thread: events seen), blocked?   Threads not finished by the schedule run on freely, in order."""
        n = len(funcs)
        self.sched = [list(x) for x in schedule]
        self.at = 0
        self.count = [0] * n
        self.done = [False] * n
        self.go = [threading.Event() for _ in range(n)]
        self.free = False
        self.beat = 0
        self.lock = threading.Lock()
        ts = [threading.Thread(target=self.body, args=(k, funcs[k]), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.first()
        end = time.time() + TOTAL
        blocked = False
        seen, since = -1, time.time()
        while not all(self.done):
            for t in ts:
                t.join(0.02)
                if t.is_alive():
                    break
            if self.beat != seen:
                seen, since = self.beat, time.time()
            elif time.time() - since > STALL and not self.free:
                # the running thread waits for one that is held back: this schedule cannot happen
                blocked = True
                self.release()
            if time.time() > end:
                self.release()
                return self.count, "hang"
        return self.count, "blocked" if blocked else ""

    def release(self):
        self.free = True
        for g in self.go:
            g.set()

    def body(self, k, f):
        self.go[k].wait()
        sys.settrace(self.tracer(k))
        try:
            f()
        finally:
            sys.settrace(None)
            with self.lock:
                self.done[k] = True
                self.beat += 1
            if not self.free:
                self.drop(k)

    def tracer(self, k):
        files, opc = self.files, self.opcodes

        def local(frame, event, arg):
            if self.free:
                return None
            if event == "line" and not opc or event == "opcode":
                self.tick(k)
            return local

        known = {}

        def glob(frame, event, arg):
            if self.free:
                return None
            fn = frame.f_code.co_filename
            y = known.get(fn)
            if y is None:
                y = known[fn] = any(fn.startswith(p) for p in files)
            if not y:
                return None
            if opc:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob

    def first(self):
        while self.at < len(self.sched) and self.sched[self.at][1] == 0:
            self.at += 1
        if self.at < len(self.sched):
            self.go[self.sched[self.at][0]].set()
        else:
            self.go[0].set()

    def tick(self, k):
        self.count[k] += 1
        self.beat += 1
        if self.at >= len(self.sched) or self.sched[self.at][0] != k:
            return
        left = self.sched[self.at][1]
        if left is None:
            return
        if left > 1:
            self.sched[self.at][1] = left - 1
            return
        self.next(k)

    def next(self, k):
        """the present entry is used up: hand over to the next thread that is not done"""
        self.at += 1
        while self.at < len(self.sched) and (self.done[self.sched[self.at][0]] or self.sched[self.at][1] == 0):
            self.at += 1
        to = self.sched[self.at][0] if self.at < len(self.sched) else k
        if to == k:
            return
        self.go[k].clear()
        self.go[to].set()
        if not self.free:
            self.go[k].wait()

    def drop(self, k):
        """thread k is finished"""
        self.at = max(self.at, 0)
        while self.at < len(self.sched) and (self.done[self.sched[self.at][0]] or self.sched[self.at][1] == 0):
            self.at += 1
        if self.at < len(self.sched):
            self.go[self.sched[self.at][0]].set()
            return
        for j, d in enumerate(self.done):
            if not d:
                self.go[j].set()
                return
