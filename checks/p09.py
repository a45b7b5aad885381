import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import copy, pickle
import numpy as np
import vlib, loopcheck, tracesys
from pyvbmc.vbmc.iteration_history import IterationHistory

FIELDS = {"iter": "all", "final": ["lens", "hvps", "unaltered"], "continue": "all", "reload": "all"}


class Thing:
    def __init__(self):
        self.inner = {"v": [0]}

    def bump(self):
        self.inner["v"][0] += 1

    def get(self):
        return self.inner["v"][0]


class Hist:
    """Live objects 1: an array, 2: a nested dictionary, 3: an object of a class, 4: a list of arrays."""

    def __init__(self, b):
        self.h = IterationHistory(["a", "b"])
        self.o = {1: np.zeros((2, 2)), 2: {"x": {"y": [0]}}, 3: Thing(), 4: [np.zeros(1), "s"]}

    def change(self, x):
        o = self.o[x]
        if x == 1:
            o += 1
        elif x == 2:
            o["x"]["y"][0] += 1
        elif x == 3:
            o.bump()
        else:
            o[0][...] += 1

    def cell(self, c):
        if c is None:
            return 0
        if isinstance(c, np.ndarray):
            return 1000 + int(c[1, 1]) if c.shape == (2, 2) and len(set(c.ravel())) == 1 else "damaged"
        if isinstance(c, dict):
            return 2000 + c["x"]["y"][0]
        if isinstance(c, Thing):
            return 3000 + c.get()
        if isinstance(c, list):
            return 4000 + int(c[0][0]) if c[1] == "s" else "damaged"
        return "what is this: %r" % (c,)

    def do(self, st):
        h, a, err = self.h, st["a"], ""
        try:
            if st["op"] == "record":
                h.record(a[0], self.o[a[1]], a[2])
            elif st["op"] == "many":
                h.record_iteration({k: self.o[x] for k, x in a[0].items()}, a[1])
            elif st["op"] == "change":
                self.change(a[0])
            elif st["op"] == "set":
                h[a[0]] = None if a[1] == -1 else h[a[0]][: a[1] + 1]
            elif st["op"] == "copy":
                self.h = h = pickle.loads(pickle.dumps(h)) if a[0] == "pickle" else copy.deepcopy(h)
            else:
                r, k, x = a
                if r == "record key":
                    h.record("unknown", self.o[x], 0)
                elif r == "many key":
                    h.record_iteration({"unknown": self.o[x]}, 0)
                elif r == "set key":
                    h["unknown"] = 1
                elif r == "record neg":
                    h.record(k, self.o[x], -1)
                else:
                    h.record_iteration({k: self.o[x]}, -1)
        except ValueError:
            err = "ValueError"
        tab = {k: [-1] if h[k] is None else [self.cell(c) for c in h[k]] for k in ("a", "b")}
        return {"err": err, "tab": tab, "n": len(list(h))}


def run(c):
    k = dict(Keys={"a", "b"}, Iters={0, 1, 3}, Objs={1, 2, 3, 4})
    r = vlib.tlc("History", constants=dict(k, Objs={1, 3}, Iters={0, 2}, Depth=3 if not c.thorough else 4, Sim=False),
                 invariants=["Sound", "Emit"], properties=["Isolated"], workers=8)
    c.model(r, "History exhaustive")
    c.replay(r.behaviours.spread(60000), Hist, "history, exhaustive", procs=8)
    r = vlib.tlc("History", constants=dict(k, Depth=16, Sim=True), invariants=["Sound", "Emit"],
                 simulate=20000 if c.thorough else 3000, depth=40)
    c.model(r, "History simulation, 16 operations")
    c.replay(r.behaviours, Hist, "history, random", procs=8)
    c.binding_selftest(r.behaviours[:10], Hist, "history")
    loopcheck.loop(c, ["any", "warp", "warmup"], FIELDS, 300, 3000, reload=True)
    tracesys.real_runs(c, "P09")


if __name__ == "__main__":
    vlib.main("P09", run)
