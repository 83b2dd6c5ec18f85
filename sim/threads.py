"""Caller threads under a scheduler the simulator owns: real threads, one runnable at a time, switched between source lines.

Each thread is traced; before every line of clustertools it executes it may be held and another thread let on.  The schedule is a
list of [thread, lines] taken round and round.  Threads are not held inside callbacks from other libraries (scipy, h5py ...), which
may hold locks of their own."""
import os
import sys
import threading

from .core import HarnessError


class Scheduler(object):
    def __init__(self, segs, where, stop=120.0):
        self.segs = segs
        self.where = where                      # directory whose lines count
        self.stop = stop
        self.switches = self.lines = 0
        self.pairs = set()

    def run(self, scripts):
        """scripts: callables; returns their results in order"""
        n = len(scripts)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.done = threading.Event()
        self.results = [None] * n
        self.pos = 0
        self.quota = 0
        ths = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(scripts)]
        for t in ths:
            t.start()
        self.current = None
        self.next()
        if not self.done.wait(self.stop):
            raise HarnessError("the simulated threads made no progress")
        for t in ths:
            t.join(5)
        return self.results

    def next(self):
        """choose who runs next and open its gate (called by the running thread only)"""
        if not self.alive:
            self.done.set()
            return None
        for _ in range(len(self.segs) + 1):
            if not self.segs:
                break
            w, k = self.segs[self.pos % len(self.segs)]
            self.pos += 1
            w %= len(self.gates)
            if w in self.alive and k > 0:
                break
        else:
            w, k = min(self.alive), 1 << 60
        if not self.segs:
            w, k = min(self.alive), 1 << 60
        self.quota = k
        if w != self.current:
            self.switches += 1
        prev, self.current = self.current, w
        if prev != w:
            self.gates[w].release()
        return w

    def body(self, i, f):
        self.gates[i].acquire()
        me = self
        root = sys._getframe()

        def free(fr):
            while fr is not None and fr is not root:
                fn = fr.f_code.co_filename
                if not (fn.startswith(me.where) or fn.startswith(HERE)):
                    return False
                fr = fr.f_back
            return True

        def local(frame, event, arg):
            if event == "line":
                me.lines += 1
                me.quota -= 1
                if me.quota <= 0 and free(frame):
                    me.pairs.add((i, frame.f_code.co_name))
                    w = me.next()
                    if w != i:
                        me.gates[i].acquire()
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(me.where):
                return local
            return None
        try:
            sys.settrace(trace)
            try:
                self.results[i] = ("ok", f())
            finally:
                sys.settrace(None)
        except BaseException as ex:
            self.results[i] = ("exc", ex)
        self.alive.discard(i)
        self.next()


HERE = os.path.dirname(os.path.abspath(__file__))
