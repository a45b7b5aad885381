import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, actsys, tracesys


def run(c):
    q = 8 if c.thorough else 1
    for mode, n, d in (("active", 60, 8), ("search", 60, 12), ("full", 40, 10)):
        b = vlib.tlc_many("Active", [dict(seed=vlib.SEED * 72 + j, simulate=n * q) for j in range(8)],
                          constants=dict(Depth=d, Sim=True, Mode=mode), invariants=["Grows", "Emit"], depth=60)
        c.model(b, "Active simulation: " + mode)
        c.replay(b.behaviours, actsys.Act, "active sampling: " + mode, procs=8, budget=400)
        c.binding_selftest(b.behaviours[:10], actsys.Act, "active sampling: " + mode)
    tracesys.real_runs(c, "P22", 8, 120)


if __name__ == "__main__":
    vlib.main("P22", run)
