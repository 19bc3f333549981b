"""Seeded interleaving of threads at the line boundaries of the library.

Exactly one thread runs at a time.  At every line of library code the running
thread may hand over to another one, chosen by the seeded generator, so a
schedule is replayable from its seed.
"""

from __future__ import annotations

import os
import sys
import threading

from . import rt

PREFIX = os.path.realpath(os.path.join(rt.REPO, "jsonpath")) + os.sep


class Baton:
    def __init__(self, rng, p):
        self.rng = rng
        self.p = p
        self.trace = []
        self.lines = 0

    def run(self, fns):
        """[(ok, value or exception)] of the functions, run interleaved."""
        n = len(fns)
        out = [None] * n
        gates = [threading.Semaphore(0) for _ in range(n)]
        finished = threading.Semaphore(0)
        live = list(range(n))
        rng, p, trace = self.rng, self.p, self.trace

        def tracer(i):
            def local(frame, event, arg):
                if event == "line":
                    self.lines += 1
                    if len(live) > 1 and rng.random() < p:
                        j = live[rng.randrange(len(live))]
                        if j != i:
                            trace.append(j)
                            gates[j].release()
                            gates[i].acquire()
                return local

            def enter(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(PREFIX) else None

            return enter

        def body(i):
            gates[i].acquire()
            sys.settrace(tracer(i))
            try:
                out[i] = (True, fns[i]())
            except BaseException as e:  # noqa: BLE001
                out[i] = (False, e)
            finally:
                sys.settrace(None)
                live.remove(i)
                if live:
                    j = live[rng.randrange(len(live))]
                    trace.append(j)
                    gates[j].release()
                else:
                    finished.release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        first = rng.randrange(n)
        trace.append(first)
        gates[first].release()
        finished.acquire()
        for t in threads:
            t.join()
        return out


def stress(fns, interval=1e-6):
    """Run the functions in free threads with a tiny switch interval."""
    out = [None] * len(fns)
    barrier = threading.Barrier(len(fns))

    def body(i):
        barrier.wait()
        try:
            out[i] = (True, fns[i]())
        except BaseException as e:  # noqa: BLE001
            out[i] = (False, e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out
