"""Two threads under a controlled scheduler: thread switches happen at chosen line (or opcode) events of /repo code only."""
import sys
import threading

import os

PREFIX = os.environ.get('MC_REPO', '/repo') + '/shipgrav'
STALL_S = 2.0


class Tracer:
    """counts events of the traced files in this thread; calls at(n) before the n-th one (from 1)"""

    def __init__(self, at, opcodes=False):
        self.n, self.at, self.op = 0, at, opcodes
        self.where = []

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if self.op:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.op else 'line'):
            self.n += 1
            self.at(self.n, frame)
        return self.local


def count(fn, opcodes=False):
    """(result, [(function, line) of each event]) of fn run alone"""
    where = []
    t = Tracer(lambda n, fr: where.append((fr.f_code.co_name, fr.f_lineno)), opcodes)
    sys.settrace(t)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return r, where


class Pair:
    """Runs f0 and f1 in two threads: thread 0 goes first; stops[i] are the event numbers at which thread i hands over."""

    def __init__(self, f0, f1, stops0, stops1, opcodes=False):
        self.f, self.stops, self.op = (f0, f1), (set(stops0), set(stops1)), opcodes
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.res = [None, None]
        self.switches = 0
        self.free = False
        self.mark = [0, 0]

    def hand_over(self, i):
        """thread i lets the other one run and waits for its own turn"""
        j = 1 - i
        if self.done[j] or self.free:
            return
        self.switches += 1
        self.go[j].release()
        while not self.go[i].acquire(timeout=STALL_S):
            # the other one is stuck (on a lock this one holds): let both run
            m = self.mark[j]
            if self.go[i].acquire(timeout=STALL_S):
                return
            if self.mark[j] == m:
                self.free = True
                return

    def body(self, i):
        self.go[i].acquire()

        def at(n, frame):
            self.mark[i] = n
            if n in self.stops[i]:
                self.hand_over(i)
        sys.settrace(Tracer(at, self.op))
        try:
            self.res[i] = self.f[i]()
        except Exception as e:
            self.res[i] = ('raised', type(e).__name__)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.go[1 - i].release()

    def run(self):
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in th:
            t.start()
        self.go[0].release()
        for t in th:
            t.join(120)
            if t.is_alive():
                raise RuntimeError('threads did not finish')
        return self.res
