import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib, actsys, tracesys


def run(c):
    b = vlib.tlc_many("Active", [dict(seed=vlib.SEED * 71 + j, simulate=600 if c.thorough else 60) for j in range(8)],
                      constants=dict(Depth=8, Sim=True, Mode="init"), invariants=["Emit"], depth=30)
    c.model(b, "Active simulation: initial design")
    c.replay(b.behaviours, actsys.Act, "initial design", procs=8, budget=400)
    c.binding_selftest(b.behaviours[:10], actsys.Act, "initial design")
    tracesys.real_runs(c, "P21", 8, 120)


if __name__ == "__main__":
    vlib.main("P21", run)
