import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import logging
import time as T
import vlib
from pyvbmc.timer import Timer, main_timer
import pyvbmc.timer.timer as M

logging.getLogger("timer").setLevel(logging.CRITICAL)
CLOCKS = ["time", "perf_counter", "monotonic"]


class Timers:
    def __init__(self, b, make=Timer):
        self.t, self.now = make(), 1000.0

    def clock(self):
        return self.now

    def do(self, st):
        old = {}
        for n in CLOCKS:
            old[T, n] = getattr(T, n)
            if callable(getattr(M, n, None)):
                old[M, n] = getattr(M, n)
        try:
            for m, n in old:
                setattr(m, n, self.clock)
            o, a = st["op"], st["a"]
            if o == "start":
                self.t.start_timer(a)
            elif o == "stop":
                self.t.stop_timer(a)
            elif o == "reset":
                self.t.reset()
            else:
                self.now += a / 4
            r = {}
            for n in st["exp"]:
                d = self.t.get_duration(n)
                r[n] = -1 if d is None else d * 4
            if self.t.get_duration("no such timer") is not None:
                r["no such timer"] = 0
                return None
            return r
        finally:
            for (m, n), f in old.items():
                setattr(m, n, f)


def shared(b):
    main_timer.reset()
    return Timers(b, lambda: main_timer)


def run(c):
    depth = 7 if c.thorough else 5
    r = vlib.tlc("Timers", constants=dict(Names={"a", "b"}, Ticks={1, 3}, Depth=depth, Sim=False), invariants=["Sane", "Emit"],
                 properties=["Separate"], workers=6)
    c.model(r, "Timers exhaustive, %d operations on two timers" % depth)
    c.replay(r.behaviours, Timers, "timers", procs=8)
    c.replay(vlib.Behaviours(r.behaviours.raw[:2000]), shared, "the global timer", procs=4)
    r = vlib.tlc("Timers", constants=dict(Names={"a", "b", "c"}, Ticks=set(range(0, 40)), Depth=40, Sim=True), invariants=["Sane", "Emit"],
                 simulate=20000 if c.thorough else 2000, depth=60)
    c.model(r, "Timers simulation, 40 operations on three timers")
    c.replay(r.behaviours, Timers, "timers, long", procs=8)
    c.binding_selftest(r.behaviours[:10], Timers, "timers")


if __name__ == "__main__":
    vlib.main("P20", run)
